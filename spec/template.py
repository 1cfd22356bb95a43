"""SP 800-22 2.7 and 2.8"""
from collections import defaultdict
from itertools import product
from math import ceil
from math import exp
from math import floor
from math import isclose
from math import log2
from math import sqrt

from scipy.special import gammaincc
from scipy.special import hyp1f1

from coinflip.collections import defaultlist
from spec.prelude import MinimumInputError
from spec.prelude import TestInputError
from spec.prelude import chisquare_test
from spec.prelude import prepare
from spec.prelude import unmet


def non_overlapping_template_matching(sequence, template_size=None, blocksize=None):
    series, n, heads, tails = prepare(sequence, 2)
    if not blocksize:
        blocksize = max(ceil(n / 100), 6)
        if blocksize % 2 == 1:
            blocksize -= 1
    nblocks = n // blocksize
    if nblocks < 1:
        raise MinimumInputError()
    if not template_size:
        template_size = max(min(blocksize // 3, 9), 2)
    m = template_size
    if m > blocksize:
        raise TestInputError()
    mu = (blocksize - m + 1) / 2 ** m
    variance = blocksize * (1 / 2 ** m - (2 * m - 1) / 2 ** (2 * m))
    # one scan of a block finds the matches of every template: a match of a
    # template counts from where its last match ended
    all_matches = defaultdict(lambda: defaultlist(int))
    for b in range(nblocks):
        block = series[b * blocksize : (b + 1) * blocksize]
        counts = defaultdict(int)
        free = defaultdict(int)
        for i in range(blocksize - m + 1):
            window = tuple(block[i : i + m])
            if i >= free[window]:
                counts[window] += 1
                free[window] = i + m
        for window, count in counts.items():
            all_matches[window][b] = count
    results = {}
    for template in product([heads, tails], repeat=m):
        matches = all_matches[template][:nblocks]
        diffs = [w - mu for w in matches]
        statistic = sum((w - mu) ** 2 / variance for w in matches)
        results[template] = {
            "statistic": statistic,
            "p": gammaincc(nblocks / 2, statistic / 2),
            "template": template,
            "block_matches": matches,
            "match_diffs": diffs,
        }
    return {
        "heads": heads,
        "tails": tails,
        "results": results,
        "failures": unmet(
            [
                ("n ≥ 100", n >= 100),
                ("template_size = 9 or 10", m == 9 or m == 10),
                ("blocksize > 0.01 * n", 100 * blocksize > n),
                ("nblocks ≤ 100", nblocks <= 100),
                ("nblocks = ⌊n / blocksize⌋", nblocks == n // blocksize),
            ]
        ),
        "template_size": m,
        "blocksize": blocksize,
        "nblocks": nblocks,
        "matches_expect": mu,
        "variance": variance,
        "steps": 2 + nblocks * (blocksize - m + 2),
    }


def overlapping_template_matching(sequence, template_size=None, blocksize=None, matches_ceil=None):
    series, n, heads, tails = prepare(sequence, 2)
    if matches_ceil is None:
        matches_ceil = 5
    if not blocksize:
        blocksize = floor(sqrt(n))
    nblocks = n // blocksize
    if nblocks < 1:
        raise MinimumInputError()
    if not template_size:
        template_size = min(max(floor(sqrt(blocksize)), 2), 12)
    m = template_size
    if m > blocksize:
        raise TestInputError()
    lambda_ = (blocksize - m + 1) / 2 ** m
    eta = lambda_ / 2
    probabilities = [exp(-eta)]
    for u in range(1, matches_ceil):
        probabilities.append(eta * exp(-2 * eta) / 2 ** u * hyp1f1(u + 1, 2, eta))
    probabilities.append(1 - sum(probabilities))
    expected = [nblocks * p for p in probabilities]
    tallies = [0] * (matches_ceil + 1)
    for b in range(nblocks):
        matches = 0
        for i in range(blocksize - m + 1):
            window = series[b * blocksize + i : b * blocksize + i + m]
            if all(x == heads for x in window):
                matches += 1
        tallies[min(matches, matches_ceil)] += 1
    statistic, p = chisquare_test(tallies, expected)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": p,
        "failures": unmet(
            [
                ("n ≥ 288", n >= 288),
                ("n ≥ nblocks * blocksize", n >= nblocks * blocksize),
                ("min(expected_tallies) > df", min(expected) > matches_ceil),
                ("λ ≈ 2", isclose(lambda_, 2)),
                ("len(template) ≈ log2(nblocks)", isclose(m, log2(nblocks))),
                ("df ≈ 2 * λ", isclose(matches_ceil, 2 * lambda_)),
            ]
        ),
        "template_size": m,
        "blocksize": blocksize,
        "matches_ceil": matches_ceil,
        "nblocks": nblocks,
        "lambda_": lambda_,
        "template": [heads] * m,
        "expected_tallies": expected,
        "tallies": tallies,
        "steps": nblocks + 3,
        "refdist": ("chi2", statistic, matches_ceil),
    }
