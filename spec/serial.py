"""SP 800-22 2.11 and 2.12"""
from math import floor
from math import log
from math import log2

from scipy.special import gammaincc

from spec.prelude import MinimumInputError
from spec.prelude import prepare
from spec.prelude import unmet


def patterns(series, n, m):
    """how often each pattern of m values occurs, the sequence wrapped around"""
    counts = {}
    for i in range(n):
        pattern = tuple(series[i + k] if i + k < n else series[i + k - n] for k in range(m))
        counts[pattern] = counts.get(pattern, 0) + 1
    return counts


def serial(sequence, blocksize=None):
    series, n, heads, tails = prepare(sequence, 2)
    if not blocksize:
        blocksize = max(floor(log2(n)) - 3, 2)
    if n < blocksize:
        raise MinimumInputError()
    m = blocksize
    counts = {}
    psi2 = {}
    sizes = 0
    for size in (m, m - 1, m - 2):
        if size > 0:
            counts[size] = patterns(series, n, size)
            psi2[size] = 2 ** size / n * sum(c ** 2 for c in counts[size].values()) - n
            sizes += 1
        else:
            counts[size] = {}
            psi2[size] = 0
    first = psi2[m] - psi2[m - 1]
    second = psi2[m] - 2 * psi2[m - 1] + psi2[m - 2]
    return {
        "heads": heads,
        "tails": tails,
        "results": {
            "∇ψ²ₘ": {"statistic": first, "p": gammaincc(2 ** (m - 2), first / 2)},
            "∇²ψ²ₘ": {"statistic": second, "p": gammaincc(2 ** (m - 3), second / 2)},
        },
        "failures": unmet([("blocksize < ⌊log2(n) - 2⌋", blocksize < floor(log2(n) - 2))]),
        "blocksize": blocksize,
        "permutation_counts": counts,
        "normalised_sums": psi2,
        "steps": (1 + n) * sizes + 2,
    }


def approximate_entropy(sequence, blocksize=None):
    series, n, heads, tails = prepare(sequence, 2)
    if not blocksize:
        blocksize = max(floor(log2(n)) - 6, 2)
    if n < blocksize:
        raise MinimumInputError()
    m = blocksize
    counts = {}
    phi = {}
    for size in (m, m + 1):
        counts[size] = patterns(series, n, size)
        phi[size] = sum(c / n * log(c / n) for c in counts[size].values())
    entropy = phi[m] - phi[m + 1]
    chi2 = 2 * n * (log(2) - entropy)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": chi2,
        "p": gammaincc(2 ** (m - 1), chi2 / 2),
        "failures": unmet([("blocksize < ⌊log2(n)⌋ - 5", blocksize < floor(log2(n)) - 5)]),
        "blocksize": blocksize,
        "permutation_counts": counts,
        "phis": phi,
        "approx_entropy": entropy,
        "steps": 2 * (n + 2) + 1,
        "refdist": ("chi2", chi2, 2 ** m),
    }
