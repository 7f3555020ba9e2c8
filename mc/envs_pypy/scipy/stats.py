"""Answers of the statistical tests come from the harness (rt.wilcoxon / rt.friedman)."""
from collections import namedtuple

import numpy as np

from mc import rt

WilcoxonResult = namedtuple("WilcoxonResult", ("statistic", "pvalue"))
FriedmanchisquareResult = namedtuple("FriedmanchisquareResult", ("statistic", "pvalue"))


def wilcoxon(x, y=None, zero_method="wilcox", correction=False, alternative="two-sided", **k):
    return WilcoxonResult(*rt.wilcoxon(x, y, zero_method))


def friedmanchisquare(*a):
    return FriedmanchisquareResult(*rt.friedman(*a))


def rankdata(a, method="average", *, axis=None):
    a = np.asarray(a, dtype=float)
    if axis is None:
        a = a.ravel()
        axis = 0

    def one(v):
        less = np.array([np.sum(v < x) for x in v])
        same = np.array([np.sum(v == x) for x in v])
        if method == "min":
            return less + 1
        if method == "max":
            return less + same
        if method == "average":
            return less + (same + 1) / 2.0
        raise NotImplementedError(method)
    return np.apply_along_axis(one, axis, a)
