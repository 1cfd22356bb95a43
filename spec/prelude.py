"""What every test does first (SP 800-22 tests need two-valued sequences).

The modules of this directory are specifications.  They are never run: the
analyser reads them exactly as it reads the code under check, and compares
what both compute.
"""
import pandas as pd
from scipy.special import gammaincc


class TestInputError(ValueError):
    pass


class NonBinarySequenceError(TestInputError):
    pass


class MinimumInputError(TestInputError):
    pass


class NonBinaryTruncatedSequenceError(NonBinarySequenceError):
    pass


class TestNotImplementedError(NotImplementedError):
    pass


def prepare(sequence, min_n):
    """the sequence by position, and its two faces, larger first"""
    if isinstance(sequence, pd.Series):
        series = sequence.reset_index(drop=True)
    else:
        series = pd.Series(sequence)
    if series.nunique() != 2 or series.hasnans:
        raise NonBinarySequenceError()
    n = len(series)
    if n < min_n:
        raise MinimumInputError()
    faces = tuple(series.unique())
    heads = max(faces)
    tails = min(faces)
    return series, n, heads, tails


def unmet(recommendations):
    """texts of the recommendations that do not hold"""
    out = []
    for text, ok in recommendations:
        if not ok:
            out.append(text)
    return out


def chisquare_test(observed, expected):
    """chi-square statistic and p-value, one degree of freedom less than classes"""
    chi2 = sum((o - e) ** 2 / e for o, e in zip(observed, expected))
    return chi2, gammaincc((len(expected) - 1) / 2, chi2 / 2)


def nearest(classes, x):
    """the class nearest to x; the larger of two as near"""
    for i in range(len(classes) - 1):
        if abs(x - classes[i]) < abs(x - classes[i + 1]):
            return classes[i]
    return classes[-1]
