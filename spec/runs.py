"""SP 800-22 2.3 and 2.4"""
from math import erfc
from math import sqrt

from spec.prelude import TestNotImplementedError
from spec.prelude import chisquare_test
from spec.prelude import nearest
from spec.prelude import prepare
from spec.prelude import unmet


def runs(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    nheads = (series == heads).sum()
    ntails = n - nheads
    share = nheads / n
    nruns = 1
    for i in range(n - 1):
        if series[i] != series[i + 1]:
            nruns += 1
    z = abs(nruns - 2 * n * share * (1 - share)) / (2 * sqrt(n) * share * (1 - share))
    return {
        "heads": heads,
        "tails": tails,
        "statistic": nruns,
        "p": erfc(z / sqrt(2)),
        "failures": unmet([("n ≥ 100", n >= 100)]),
        "n": n,
        "nheads": nheads,
        "ntails": ntails,
        "prop_heads": share,
        "prop_tails": ntails / n,
        "steps": 4,
        "refdist": ("halfnorm", z),
    }


def runs_of(values):
    current = values.iloc[0]
    length = 0
    for _, value in values.items():
        if value != current:
            yield current, length
            current = value
            length = 1
        else:
            length += 1
    yield current, length


def longest_runs(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    if n < 128:
        raise TestNotImplementedError()
    elif n < 6272:
        blocksize, nblocks = 8, 16
        classes = [1, 2, 3, 4]
        probabilities = [0.2148, 0.3672, 0.2305, 0.1875]
    elif n < 750000:
        blocksize, nblocks = 128, 49
        classes = [4, 5, 6, 7, 8, 9]
        probabilities = [0.1174, 0.2430, 0.2493, 0.1752, 0.1027, 0.1124]
    else:
        blocksize, nblocks = 10000, 75
        classes = [10, 11, 12, 13, 14, 15, 16]
        probabilities = [0.0882, 0.2092, 0.2483, 0.1933, 0.1208, 0.0675, 0.0727]
    expected = [nblocks * p for p in probabilities]
    longest = []
    for b in range(nblocks):
        best = 0
        for value, length in runs_of(series[b * blocksize : (b + 1) * blocksize]):
            if value == heads:
                if length > best:
                    best = length
        longest.append(best)
    # the class nearest to a length: itself, or the first or last one
    tallies = {classes[0]: sum(1 for x in longest if x < classes[1])}
    for k in classes[1:-1]:
        tallies[k] = sum(1 for x in longest if x == k)
    tallies[classes[-1]] = sum(1 for x in longest if x >= classes[-1])
    statistic, p = chisquare_test(list(tallies.values()), expected)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet([("n ≥ 128", n >= 128)]),
        "blocksize": blocksize,
        "nblocks": nblocks,
        "expected_bincounts": expected,
        "maxlen_bins": tallies,
        "steps": nblocks + 2,
        "refdist": ("chi2", statistic, len(classes) - 1),
    }
