"""SP 800-22 2.6"""
from math import erfc
from math import log
from math import sqrt

from scipy.fft import fft

from spec.prelude import NonBinaryTruncatedSequenceError
from spec.prelude import prepare
from spec.prelude import unmet


def spectral(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    signal = series
    if n % 2 == 1:
        signal = series[: n - 1]
        if signal.nunique() != 2:
            raise NonBinaryTruncatedSequenceError()
    threshold = sqrt(n * log(1 / 0.05))
    expected = 0.95 * n / 2
    waves = fft(signal.map({heads: 1, tails: -1}))
    peaks = list(abs(waves)[: n // 2])
    below = sum(peak < threshold for peak in peaks)
    d = (below - expected) / sqrt(n * 0.95 * 0.05 / 4)
    return {
        "heads": heads,
        "tails": tails,
        "statistic": d,
        "p": erfc(abs(d) / sqrt(2)),
        "failures": unmet([("n ≥ 1000", n >= 1000)]),
        "n": n,
        "threshold": threshold,
        "nbelow_expect": expected,
        "nbelow": below,
        "diff": below - expected,
        "peaks": peaks,
        "steps": 4,
        "refdist": ("halfnorm", abs(d)),
    }
