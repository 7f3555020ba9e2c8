# -*- coding: utf-8 -*-
"""C13: array checks accept exactly the documented inputs and never alter data.  (real numpy and pandas)"""
import copy
import itertools

import numpy as np
import pandas as pd

from mc.engine import Violation

BOUNDS = {
    "quick": "all shapes in 0-4 dimensions with sizes 0-4 (4 dimensions: 0-2), also (1..2,1..3,0..8) and a few long ones, x containers "
             "(array, matrix, nested lists, list of arrays, tuple, data frame, series, others) x 10 dtypes x 7 memory layouts "
             "x all options (min_timestamps -1..7, is_univariate, coerce_to_numpy, positional and by name)",
    "thorough": "sizes 0-6 (4 dimensions: 0-3)"}

DTYPES = ["float64", "float32", "int64", "int8", "uint16", "bool", "complex128", "object", "<U3", "datetime64[D]"]
LAYOUTS = ["C", "F", "strided", "reversed", "readonly", "transposed", "broadcast"]


def funcs():
    from convst.utils import checks_utils as c
    return c.check_array_1D, c.check_array_2D, c.check_array_3D


def base(shape, dtype):
    n = int(np.prod(shape)) if shape else 1
    v = np.arange(n)
    if dtype == "object":
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = i * 0.5
        return a.reshape(shape)
    if dtype == "<U3":
        return np.array([str(i % 100) for i in range(n)], dtype=dtype).reshape(shape)
    if dtype == "bool":
        return (v % 3 == 0).reshape(shape)
    if dtype == "datetime64[D]":
        return (np.datetime64("2020-01-01") + v).reshape(shape)
    if dtype == "float64":
        a = v * 0.37 - 1.0
        if n > 2:
            a[1] = np.nan
            a[2] = np.inf
        return a.reshape(shape)
    return (v % 100).astype(dtype).reshape(shape)


def layout(a, how):
    if how == "F":
        return np.asfortranarray(a) if a.ndim else a
    if how == "strided" and a.ndim:
        big = np.repeat(a, 2, axis=-1)
        return big[..., ::2]
    if how == "reversed" and a.ndim:
        return a[..., ::-1]
    if how == "readonly":
        a = a.copy()
        a.setflags(write=False)
        return a
    if how == "transposed":
        return np.ascontiguousarray(a.T).T
    if how == "broadcast" and a.ndim and a.shape[0] > 0:
        return np.broadcast_to(a[:1], a.shape)
    return a


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    for p, q in zip(a.ravel().tolist(), b.ravel().tolist()):
        if p != q and not (p != p and q != q):
            return False
    return True


def snapshot(x):
    if isinstance(x, pd.DataFrame):
        return ("df", x.values.copy(), list(x.columns), list(x.index), [str(t) for t in x.dtypes])
    if isinstance(x, np.ndarray):
        return ("a", np.array(x, copy=True), x.strides, x.flags.writeable, x.dtype)
    if isinstance(x, (list, tuple)):
        return (type(x), [snapshot(v) for v in x])
    return ("o", repr(x))


def unchanged(s, x):
    t = snapshot(x)
    if s[0] != t[0]:
        return False
    if s[0] == "df":
        return same(s[1], t[1]) and s[2:] == t[2:]
    if s[0] == "a":
        return same(s[1], t[1]) and s[2:] == t[2:]
    if s[0] == "o":
        return s[1] == t[1]
    return len(s[1]) == len(t[1]) and all(unchanged(p, q) for p, q in zip(s[1], x))


def attempt(f, x, args, kw):
    try:
        return True, f(x, *args, **kw)
    except ValueError:
        return False, None


def judge(f, nd, x, ok, want, what, args=(), kw={}):
    """ok: must be accepted; want: the expected value (array or the data frame itself)"""
    s = snapshot(x)
    acc, out = attempt(f, x, args, kw)
    if not unchanged(s, x):
        raise Violation("the input was modified: %s" % what)
    if acc != ok:
        raise Violation("%s by the %dD check: %s" % ("accepted" if acc else "rejected", nd, what))
    if not acc:
        return
    if isinstance(want, pd.DataFrame):
        if not isinstance(out, pd.DataFrame) or not same(out.values, want.values) or list(out.columns) != list(want.columns) \
                or list(out.index) != list(want.index):
            raise Violation("another value than the data frame was returned: %s" % what)
        return
    if not isinstance(out, np.ndarray) or not same(out, want):
        raise Violation("returned %s %s of dtype %s instead of %s of dtype %s: %s" % (
            type(out).__name__, np.asarray(out).tolist() if np.size(out) < 30 else np.shape(out), np.asarray(out).dtype,
            np.asarray(want).shape, np.asarray(want).dtype, what))


def ok3(shape, mt=2, uni=False):
    return len(shape) == 3 and 0 not in shape and shape[2] > mt and (not uni or shape[1] == 1)


def ok2(shape):
    return len(shape) == 2 and 0 not in shape


def ok1(shape):
    return len(shape) == 1 and 0 not in shape


def all_checks(x, shape, want, what, only=None):
    c1, c2, c3 = funcs()
    judge(c1, 1, x, ok1(shape), want, what)
    judge(c2, 2, x, ok2(shape), want, what)
    for co in (True, False):
        judge(c2, 2, x, ok2(shape), want, what + " coerce=%s" % co, kw=dict(coerce_to_numpy=co))
    judge(c2, 2, x, ok2(shape), want, what + " coerce positional", args=(False,))
    judge(c3, 3, x, ok3(shape), want, what)
    for uni in (False, True):
        judge(c3, 3, x, ok3(shape, uni=uni), want, what + " univariate=%s" % uni, kw=dict(is_univariate=uni))
        for mt in range(-1, 8):
            judge(c3, 3, x, ok3(shape, mt, uni), want, what + " univariate=%s min_timestamps=%d" % (uni, mt),
                  kw=dict(is_univariate=uni, min_timestamps=mt))
        judge(c3, 3, x, ok3(shape, 3, uni), want, what + " positional %s 3" % uni, args=(True, uni, 3))
    judge(c3, 3, x, ok3(shape), want, what + " coerce=False", kw=dict(coerce_to_numpy=False))


def arrays(ctx, shapes, dtypes):
    shape = ctx.pick(shapes, "shape")
    dtype = ctx.pick(dtypes, "dtype")
    lay = ctx.pick(LAYOUTS, "layout")
    a = layout(base(shape, dtype), lay)
    all_checks(a, a.shape, np.array(a, copy=True), "array of shape %s, dtype %s, layout %s" % (shape, dtype, lay))
    ctx.outcome = (shape, dtype, lay)


def rejected(x, what):
    c1, c2, c3 = funcs()
    for nd, c in ((1, c1), (2, c2), (3, c3)):
        judge(c, nd, x, False, None, what)
    judge(c2, 2, x, False, None, what, kw=dict(coerce_to_numpy=False))
    judge(c3, 3, x, False, None, what, kw=dict(is_univariate=True, min_timestamps=0))


def containers(ctx, shapes, dtypes):
    shape = ctx.pick(shapes, "shape")
    dtype = ctx.pick(dtypes, "dtype")
    a = base(shape, dtype)
    what = " of shape %s, dtype %s" % (shape, dtype)
    which = ctx.pick(["list", "list of arrays", "list of lists of arrays", "tuple", "list of tuples", "subclass", "series"],
                     "container")
    if which == "list":
        x = a.tolist()
        if not isinstance(x, list):
            rejected(x, "scalar %r" % (x,))
        else:
            w = np.asarray(x)
            all_checks(x, w.shape, w, "nested lists" + what)
    elif which == "list of arrays" and shape:
        x = [copy.copy(a[i]) for i in range(shape[0])]
        w = np.asarray(x)
        all_checks(x, w.shape, w, "list of arrays" + what)
    elif which == "list of lists of arrays" and len(shape) > 1:
        x = [[copy.copy(a[i, j]) for j in range(shape[1])] for i in range(shape[0])]
        w = np.asarray(x)
        all_checks(x, w.shape, w, "list of lists of arrays" + what)
    elif which == "list of tuples" and len(shape) > 1:
        x = [tuple(a[i].tolist()) for i in range(shape[0])]
        w = np.asarray(x)
        all_checks(x, w.shape, w, "list of tuples" + what)
    elif which == "tuple" and shape:
        rejected(tuple(a.tolist()), "tuple" + what)
    elif which == "subclass" and len(shape) == 2 and dtype in ("float64", "int64"):
        x = np.matrix(np.where(np.isfinite(a), a, 0))
        c1, c2, c3 = funcs()
        judge(c2, 2, x, ok2(shape), np.array(x), "matrix" + what)
        judge(c1, 1, x, False, None, "matrix" + what)
        judge(c3, 3, x, False, None, "matrix" + what)
    elif which == "series" and len(shape) == 1 and dtype != "datetime64[D]":
        rejected(pd.Series(a.tolist(), dtype=object if dtype in ("object", "<U3") else dtype), "series" + what)
        rejected(pd.Index(a.tolist(), dtype=object), "index" + what)
    ctx.outcome = (which, shape, dtype)


def frames(ctx, shapes):
    shape = ctx.pick(shapes, "shape")
    form = ctx.pick(["plain", "named", "mixed", "int", "object", "duplicate columns"], "frame")
    r, c = shape
    a = base(shape, "float64")
    if form == "plain":
        df = pd.DataFrame(a)
    elif form == "named":
        df = pd.DataFrame(a, index=["r%d" % (7 - i) for i in range(r)], columns=["c%d" % (9 - i) for i in range(c)])
    elif form == "mixed":
        df = pd.DataFrame(dict((str(j), (np.arange(r) * (j + 1) if j % 2 else np.arange(r) * 0.5)) for j in range(c)), index=range(r))
    elif form == "int":
        df = pd.DataFrame(base(shape, "int64"))
    elif form == "object":
        df = pd.DataFrame(base(shape, "object"))
    else:
        df = pd.DataFrame(a, columns=["x"] * c)
    c1, c2, c3 = funcs()
    what = "%s data frame of shape %s" % (form, shape)
    ok = 0 not in shape
    vals = df.values.copy()
    judge(c2, 2, df, ok, vals, what)
    judge(c2, 2, df, ok, vals, what + " coerce", kw=dict(coerce_to_numpy=True))
    judge(c2, 2, df, ok, df.copy(), what + " no coerce", kw=dict(coerce_to_numpy=False))
    judge(c1, 1, df, False, None, what)
    for kw in (dict(), dict(coerce_to_numpy=False), dict(is_univariate=True), dict(min_timestamps=0)):
        judge(c3, 3, df, False, None, what, kw=kw)
    ctx.outcome = (form, shape)


def others(ctx):
    vals = [None, 3, 2.5, "abc", b"abc", True, (1, 2, 3), {1: 2}, {1, 2}, range(5), iter([1, 2]), slice(3), object(), np.float64(2.0),
            np.int64(3), np.bool_(True), np.str_("a"), int, memoryview(b"abc"), bytearray(b"abc"), frozenset([1]), 1j, Ellipsis,
            pd.Series([1.0, 2.0]), pd.Index([1, 2]), pd.Timestamp("2020-01-01"), ((1, 2), (3, 4)), (((1, 2, 3),),), [], [[]], [[], []], [[[]]],
            [[[], []], [[], []]]]
    i = ctx.choose(len(vals), "value")
    rejected(vals[i], "value %r" % (vals[i],))
    ctx.outcome = i


def ragged(ctx):
    """Lists of different lengths cannot be arrays of the required dimensions."""
    vals = [[[1, 2], [3]], [[1.0, 2.0, 3.0], [1.0, 2.0]], [[[1, 2, 3]], [[1, 2, 3], [4, 5, 6]]], [[[1, 2, 3], [1, 2]]],
            [[[1, 2, 3, 4]], [[1, 2, 3]]]]
    i = ctx.choose(len(vals), "value")
    c1, c2, c3 = funcs()
    for nd, c in ((2, c2), (3, c3)):
        judge(c, nd, vals[i], False, None, "ragged list %r" % (vals[i],))
    arrs = [[np.arange(4.0).reshape(1, 4), np.arange(5.0).reshape(1, 5)], [np.arange(3.0), np.arange(4.0)]]
    for a in arrs:
        for nd, c in ((2, c2), (3, c3)):
            judge(c, nd, a, False, None, "list of arrays of different shapes")
    ctx.outcome = i


def jobs(tier):
    m, m4 = (4, 2) if tier == "quick" else (6, 3)
    out = []
    groups = [[()], [(i,) for i in range(m + 1)] + [(17,), (300,)], list(itertools.product(range(m + 1), repeat=2)) + [(30, 15), (1, 40)]]
    g3 = list(itertools.product(range(m + 1), repeat=3)) + [(a, b, c) for a in (1, 2) for b in (1, 2, 3) for c in range(m + 1, 9)] + [(30, 1, 12)]
    g4 = list(itertools.product(range(m4 + 1), repeat=4))
    for d in DTYPES:
        out.append(("arrays 0-2D %s" % d, "arrays", dict(shapes=groups[0] + groups[1] + groups[2], dtypes=[d]), 2))
        out.append(("arrays 3D %s" % d, "arrays", dict(shapes=g3, dtypes=[d]), 9))
        out.append(("arrays 4D %s" % d, "arrays", dict(shapes=g4, dtypes=[d]), 4))
        out.append(("containers %s" % d, "containers", dict(shapes=groups[0] + groups[1] + groups[2] + g3 + g4, dtypes=[d]), 9))
    out.append(("frames", "frames", dict(shapes=groups[2]), 3))
    out.append(("others", "others", {}, 1))
    out.append(("ragged", "ragged", {}, 1))
    return out
