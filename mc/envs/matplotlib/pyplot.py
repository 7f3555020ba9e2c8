# -*- coding: utf-8 -*-
"""Recorder: every call on pyplot, a figure or an axes is appended to LOG as (object, method, args, kwargs); arrays are
copied at call time."""
import numpy as np

LOG = []


def _cp(x):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(_cp(v) for v in x)
    return x


class Rec(object):
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, m):
        if m.startswith("__") or m in ("iloc", "shape", "dtype"):
            raise AttributeError(m)

        def call(*a, **k):
            LOG.append((self._name, m, _cp(a), {q: _cp(v) for q, v in k.items()}))
            if m == "add_axes":
                return Rec(self._name + ".axes")
            return Rec(self._name + "." + m)
        return call

    def __iter__(self):
        return iter(())


class Figure(Rec):
    pass


def figure(*a, **k):
    LOG.append(("plt", "figure", _cp(a), {q: _cp(v) for q, v in k.items()}))
    return Figure("fig")


def subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
    LOG.append(("plt", "subplots", (nrows, ncols), {}))
    arr = np.empty((nrows, ncols), dtype=object)
    for i in range(nrows):
        for j in range(ncols):
            arr[i, j] = Rec("ax[%d,%d]" % (i, j))
    if squeeze:
        if nrows == ncols == 1:
            return Figure("fig"), arr[0, 0]
        if nrows == 1 or ncols == 1:
            return Figure("fig"), arr.ravel()
    return Figure("fig"), arr


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)

    def call(*a, **k):
        LOG.append(("plt", name, _cp(a), {q: _cp(v) for q, v in k.items()}))
        return Rec("plt." + name)
    return call
