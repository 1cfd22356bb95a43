"""SP 800-22 2.1 and 2.2"""
from collections import Counter
from math import ceil
from math import erfc
from math import sqrt

from scipy.special import gammaincc

from spec.prelude import MinimumInputError
from spec.prelude import prepare
from spec.prelude import unmet


def monobit(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    nheads = (series == heads).sum()
    ntails = n - nheads
    diff = abs(nheads - ntails)
    statistic = diff / sqrt(n)
    p = erfc(statistic / sqrt(2))
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet([("n ≥ 100", n >= 100)]),
        "n": n,
        "diff": diff,
        "refdist": ("halfnorm", statistic),
        "counts": ((heads, nheads), (tails, ntails)),
        "steps": 2,
    }


def default_blocksize(n):
    if n < 100:
        return 8
    size = max(ceil(n / 100), 20)
    if n // size >= 100 and n > 5000:
        size = n // 50
    return size


def frequency_within_block(sequence, blocksize=None):
    series, n, heads, tails = prepare(sequence, 8)
    if not blocksize:
        blocksize = default_blocksize(n)
    nblocks = n // blocksize
    if nblocks < 1:
        raise MinimumInputError()
    counts = []
    for b in range(nblocks):
        counts.append((series[b * blocksize : (b + 1) * blocksize] == heads).sum())
    statistic = 4 * blocksize * sum((c / blocksize - 1 / 2) ** 2 for c in counts)
    p = gammaincc(nblocks / 2, statistic / 2)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet(
            [
                ("n ≥ 100", n >= 100),
                ("blocksize ≥ 20", blocksize >= 20),
                ("blocksize > 0.01 * n", 100 * blocksize > n),
                ("nblocks < 100", nblocks < 100),
            ]
        ),
        "blocksize": blocksize,
        "nblocks": nblocks,
        "counts": counts,
        "count_nblocks": Counter(counts),
        "refdist": ("chi2", statistic, nblocks),
        "steps": nblocks + 3,
    }
