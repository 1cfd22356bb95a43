"""SP 800-22 2.5"""
from math import floor
from math import sqrt

from spec.prelude import MinimumInputError
from spec.prelude import chisquare_test
from spec.prelude import prepare
from spec.prelude import unmet


def binary_matrix_rank(sequence, matrix_dimen=None):
    series, n, heads, tails = prepare(sequence, 4)
    if matrix_dimen is None:
        if n // 1024 > 38:
            nrows = ncols = 32
        else:
            nrows = ncols = floor(sqrt(max(n // 38, 4)))
    else:
        nrows, ncols = matrix_dimen
    blocksize = nrows * ncols
    nblocks = n // blocksize
    if nblocks < 1:
        raise MinimumInputError()
    fullrank = min(nrows, ncols)
    remaining = runnerup = full = 0
    for b in range(nblocks):
        rows = []
        for r in range(nrows):
            number = 0
            for c in range(ncols):
                bit = 1 if series[b * blocksize + r * ncols + c] == heads else 0
                number = (number << 1) | bit
            rows.append(number)
        k = rank(rows)
        if k == fullrank:
            full += 1
        elif k == fullrank - 1:
            runnerup += 1
        else:
            remaining += 1
    expected = (0.1336 * nblocks, 0.5776 * nblocks, 0.2888 * nblocks)
    statistic, p = chisquare_test((remaining, runnerup, full), expected)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet([("n ≥ 152", n >= 152), ("n ≥ 38 * blocksize", n >= 38 * blocksize)]),
        "nrows": nrows,
        "ncols": ncols,
        "fullrank": fullrank,
        "expected_rankcounts": {"remaining": expected[0], "runnerup": expected[1], "full": expected[2]},
        "rankcounts": {"remaining": remaining, "runnerup": runnerup, "full": full},
        "steps": nblocks + 3,
        "refdist": ("chi2", statistic, 2),
    }


def rank(rows):
    """rank over GF(2) of rows given as numbers"""
    found = 0
    while rows:
        pivot = rows.pop()
        if pivot:
            found += 1
            lowest = pivot & -pivot
            for i in range(len(rows)):
                if rows[i] & lowest:
                    rows[i] = rows[i] ^ pivot
    return found
