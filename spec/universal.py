"""SP 800-22 2.9"""
from collections import defaultdict
from math import ceil
from math import erfc
from math import floor
from math import isclose
from math import log
from math import log2
from math import sqrt

from spec.prelude import MinimumInputError
from spec.prelude import TestNotImplementedError
from spec.prelude import prepare
from spec.prelude import unmet

EXPECTED = {
    1: (0.7326495, 0.690),
    2: (1.5374383, 1.338),
    3: (2.4016068, 1.901),
    4: (3.3112247, 2.358),
    5: (4.2534266, 2.705),
    6: (5.2177052, 2.954),
    7: (6.1962507, 3.125),
    8: (7.1836656, 3.238),
    9: (8.1764248, 3.311),
    10: (9.1723243, 3.356),
    11: (10.170032, 3.384),
    12: (11.168765, 3.401),
    13: (12.168070, 3.410),
    14: (13.167693, 3.416),
    15: (14.167488, 3.419),
    16: (15.167379, 3.421),
}

DEFAULTS = [
    (1059061760, 16),
    (496435200, 15),
    (231669760, 14),
    (107560960, 13),
    (49643520, 12),
    (22753280, 11),
    (10342400, 10),
    (4654080, 9),
    (2068480, 8),
    (904960, 7),
    (387840, 6),
]


def maurers_universal(sequence, blocksize=None, init_nblocks=None):
    series, n, heads, tails = prepare(sequence, 4)
    if blocksize and blocksize > 16:
        raise TestNotImplementedError()
    if not blocksize and not init_nblocks:
        for least, size in DEFAULTS:
            if n >= least:
                blocksize = size
                init_nblocks = 10 * 2 ** size
                break
    if not blocksize:
        blocksize = min(max(ceil(log(n)), 2), 16)
    if not init_nblocks:
        init_nblocks = max(n // blocksize // 100, 1)
    init_n = init_nblocks * blocksize
    init, segment = series[:init_n], series[init_n:]
    segment_nblocks = (n - init_n) // blocksize
    if segment_nblocks < 1:
        raise MinimumInputError()
    mean_expect, variance = EXPECTED[blocksize]
    last = defaultdict(int)
    for i in range(len(init) // blocksize):
        block = tuple(init[i * blocksize : (i + 1) * blocksize])
        last[block] = i + 1
    places = defaultdict(list)
    for i in range(len(segment) // blocksize):
        block = tuple(segment[i * blocksize : (i + 1) * blocksize])
        places[block].append(init_nblocks + i + 1)
    total = 0
    for block, positions in places.items():
        previous = last[block]
        for position in positions:
            total += log2(position - previous)
            previous = position
    statistic = total / segment_nblocks
    z = abs(statistic - mean_expect) / sqrt(variance)
    K = segment_nblocks
    c = 0.7 - 0.8 / blocksize + (4 + 32 / blocksize) * K ** (-3 / blocksize) / 15
    sigma = c * sqrt(variance / K)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": statistic,
        "p": erfc(abs(statistic - mean_expect) / (sqrt(2) * sigma)),
        # without c and K: known finding
        "known": ("p", "universal-sigma", erfc(z / sqrt(2))),
        "failures": unmet(
            [
                ("n ≥ 387840", n >= 387840),
                ("6 ≤ blocksize ≤ 16", 6 <= blocksize <= 16),
                ("init_nblocks ≈ 10 * 2 ** blocksize", abs(init_nblocks - 10 * 2 ** blocksize) <= 5),
                ("segment_nblocks ≈ ⌊n / blocksize⌋ - init_nblocks", isclose(segment_nblocks, floor(n / blocksize) - init_nblocks)),
            ]
        ),
        "blocksize": blocksize,
        "init_nblocks": init_nblocks,
        "segment_nblocks": segment_nblocks,
        "mean_expect": mean_expect,
        "variance": variance,
        "permutation_last_init_pos": last,
        "permutation_positions": places,
        "steps": init_nblocks + segment_nblocks + 2,
        "refdist": ("halfnorm", z),
    }
