# -*- coding: utf-8 -*-
"""Observation of the components of the classifiers: R_DST instances (wrapped class methods), linear models (environment
model), user input transformers (recording).  Only public entry points are wrapped."""
from .fitlib import *


class Recorder(object):
    """Logs every call of R_DST.fit / R_DST.transform, or replaces them by stubs."""

    def __init__(self, fit=None, transform=None):
        self.fits, self.transforms = [], []
        self.stub_fit, self.stub_transform = fit, transform

    def __enter__(self):
        from convst.transformers import R_DST as C
        self.C = C
        self.saved = C.fit, C.transform
        rec = self

        def fit(est, X, y=None, *a, **k):
            rec.fits.append((est, X, np.array(y), dict(est.get_params())))
            if rec.stub_fit is not None:
                est.shapelets_ = None
                rec.stub_fit(est, X, y)
                return est
            return rec.saved[0](est, X, y, *a, **k)

        def transform(est, X, *a, **k):
            out = rec.stub_transform(est, X) if rec.stub_transform is not None else rec.saved[1](est, X, *a, **k)
            rec.transforms.append((est, X, np.array(out)))
            return out
        C.fit, C.transform = fit, transform
        rt.ridge_log = []
        return self

    def __exit__(self, *a):
        self.C.fit, self.C.transform = self.saved

    def models(self):
        return [e for e in rt.ridge_log if e[0] == "fit"]

    def decisions(self, model):
        return [e for e in rt.ridge_log if e[0] == "decide" and e[1] is model]


class EnvFree(object):
    """The reference's own models leave no trace in the log and get no injected answer."""

    def __enter__(self):
        self.s = rt.ridge_log, rt.ridge_cv, rt.ridge_decide
        rt.ridge_log = rt.ridge_cv = rt.ridge_decide = None

    def __exit__(self, *a):
        rt.ridge_log, rt.ridge_cv, rt.ridge_decide = self.s


def same_X(a, b):
    """The same collection of series, whatever the container."""
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)
        if p.shape != q.shape or not np.allclose(p, q, rtol=1e-9, atol=1e-9):
            return False
    return True


def labelings(n, kmax):
    """All ways to split n samples in 2..kmax classes, classes numbered by first occurrence."""
    out = []

    def rec(pre, k):
        if len(pre) == n:
            if k >= 2:
                out.append(tuple(pre))
            return
        for c in range(min(k + 1, kmax)):
            rec(pre + [c], max(k, c + 1))
    rec([], 0)
    return out


LABELS = {
    "range": np.array([0, 1, 2, 3]), "reversed": np.array([3, 2, 1, 0]), "gaps": np.array([5, -3, 100, 7]),
    "strings": np.array(["b", "a", "Zz", "c"]), "long": np.array(["10", "9", "-1", "longer label"]),
    "one_based": np.array([1, 2, 3, 4]), "object": np.array(["y", "x", "w", "z"], dtype=object),
    "small": np.array([2, 1, 4, 3], dtype=np.uint8), "bool": np.array([True, False]),
}
