"""SP 800-22 2.10"""
from math import floor
from math import sqrt

from spec.prelude import MinimumInputError
from spec.prelude import chisquare_test
from spec.prelude import nearest
from spec.prelude import prepare
from spec.prelude import unmet

CLASSES = [-3, -2, -1, 0, 1, 2, 3]
PROBABILITIES = [0.010417, 0.03125, 0.125, 0.5, 0.25, 0.0625, 0.020833]


def default_blocksize(n):
    for size in [1000, 2500, 500, 5000]:
        if n // size >= 200:
            return size
    return max(floor(sqrt(n)), 2)


def linear_complexity(sequence, blocksize=None):
    series, n, heads, tails = prepare(sequence, 2)
    if not blocksize:
        blocksize = default_blocksize(n)
    nblocks = n // blocksize
    if nblocks < 1:
        raise MinimumInputError()
    mu = blocksize / 2 + (9 + (-1) ** (blocksize + 1)) / 36 - (blocksize / 3 + 2 / 9) * 2 ** -blocksize
    expected = [nblocks * p for p in PROBABILITIES]
    variances = []
    for b in range(nblocks):
        bits = [1 if series[b * blocksize + i] == heads else 0 for i in range(blocksize)]
        variances.append((-1) ** blocksize * (shortest_register(bits) - mu) + 2 / 9)
    # the class nearest to a value, the larger one between two
    half = 1 / 2
    tallies = {CLASSES[0]: sum(1 for t in variances if t < CLASSES[0] + half)}
    for k in CLASSES[1:-1]:
        tallies[k] = sum(1 for t in variances if k - half <= t < k + half)
    tallies[CLASSES[-1]] = sum(1 for t in variances if t >= CLASSES[-1] - half)
    statistic, p = chisquare_test(list(tallies.values()), expected)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet(
            [
                ("n ≥ 1000000", n >= 1000000),
                ("500 ≤ blocksize ≤ 5000", 500 <= blocksize <= 5000),
                ("nblocks ≥ 200", nblocks >= 200),
            ]
        ),
        "blocksize": blocksize,
        "mean_expect": mu,
        "expected_bincounts": expected,
        "variance_bins": tallies,
        "steps": nblocks + 3,
        "refdist": ("chi2", statistic, 6),
    }


def shortest_register(bits):
    """Berlekamp-Massey over GF(2)"""
    n = len(bits)
    locator = [0] * n
    locator[0] = 1
    previous = list(locator)
    size = 0
    changed = -1
    for i in range(n):
        error = bits[i]
        for k in range(size):
            error = error ^ (bits[i - 1 - k] & locator[1 + k])
        if error:
            kept = list(locator)
            shift = i - changed
            locator[shift:n] = [locator[shift + k] ^ previous[k] for k in range(n - shift)]
            if 2 * size <= i:
                size = i + 1 - size
                changed = i
                previous = kept
    return size
