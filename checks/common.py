# -*- coding: utf-8 -*-
"""Reference definitions and drivers shared by the checks (boring on purpose)."""
import itertools
import os
import sys

import numpy as np

from mc import rt
from mc.engine import Violation, EnvError, SEED

KINDS = ("univariate", "multivariate", "univariate_variable", "multivariate_variable")
UNI = ("univariate", "univariate_variable")
VAR = ("univariate_variable", "multivariate_variable")
TOL = 1e-6


def gen(*shape, **kw):
    """Pairwise distinct generic reals, a function of the seed and of `salt` only."""
    r = np.random.RandomState((SEED * 7919 + 31 * kw.get("salt", 0)) % (2 ** 31))
    n = int(np.prod(shape))
    v = np.arange(n) + 0.35 * r.random_sample(n)
    r.shuffle(v)
    v = (v - n / 2.0) / max(1.0, n / 8.0)
    return v.reshape(shape)


def shapes(n, lmax=None, dmax=None):
    """All (length, dilation) fitting in n timestamps."""
    out = []
    for l in range(2, min(n, lmax or n) + 1):
        for d in range(1, (n - 1) // (l - 1) + 1):
            if dmax and d > dmax:
                break
            out.append((l, d))
    return out


# ------------------------------------------------------------------ definitions
def window_index(n, l, d, phase):
    if phase:
        return [[(i + j * d) % n for j in range(l)] for i in range(n)]
    return [[i + j * d for j in range(l)] for i in range(n - (l - 1) * d)]


_wi = {}


def windows(x, l, d, phase):
    key = (len(x), l, d, bool(phase))
    if key not in _wi:
        _wi[key] = np.array(window_index(*key), dtype=int).reshape(-1, l)
    return np.asarray(x, dtype=float)[_wi[key]]


def znorm(w):
    w = np.asarray(w, dtype=float)
    m = w.mean(axis=-1, keepdims=True)
    s = np.sqrt(((w - m) ** 2).mean(axis=-1, keepdims=True))
    return (w - m) / (s + 1e-8)


def profile(x, values, d, norm, phase):
    """x: (channels, n) of the shapelet's channels; values: (channels, length)"""
    tot = 0.0
    for c in range(len(values)):
        w = windows(x[c], len(values[c]), d, phase)
        if norm:
            w = znorm(w)
        tot = tot + np.abs(w - np.asarray(values[c], dtype=float)).sum(axis=1)
    return tot


class Shp(object):
    def __init__(self, values, d, thr, norm, channels=(0,)):
        v = np.atleast_2d(np.asarray(values, dtype=float))
        self.values, self.d, self.thr, self.norm, self.channels = v, int(d), float(thr), bool(norm), list(channels)
        self.l = v.shape[1]

    def __repr__(self):
        return "Shp(l=%d,d=%d,norm=%s,thr=%.6g,ch=%s,values=%s)" % (
            self.l, self.d, self.norm, self.thr, self.channels, np.round(self.values, 5).tolist())

    def profile(self, x, phase):
        x = np.asarray(x, dtype=float)
        return profile(x[self.channels], self.values, self.d, self.norm, phase)


def check_triple(row3, shp, x, phase, exact, what="", unit=1.0):
    """The three features against the definition.  exact: integer data without normalisation, compared exactly."""
    p = shp.profile(x, phase)
    mn, am, cnt = row3
    if exact:
        want = (p.min(), float(p.argmin()), float((p <= shp.thr).sum()))
        if not (mn == want[0] and am == want[1] and cnt == want[2]):
            raise Violation("features %s instead of %s for %r on %s %s" % (
                (mn, am, cnt), want, shp, np.asarray(x).tolist(), what))
        return
    tol = TOL * (unit + abs(p).max())
    ok = np.isfinite([mn, am, cnt]).all() and abs(mn - p.min()) <= tol
    if ok:
        ok = am == int(am) and 0 <= am < len(p) and p[int(am)] <= p.min() + tol
    if ok:
        # bit-identical windows are true ties: the first one wins
        x = np.asarray(x, dtype=float)
        W = [windows(x[c], shp.l, shp.d, phase) for c in shp.channels]
        for j in range(int(am)):
            if all((w[j] == w[int(am)]).all() for w in W):
                ok = False
    if ok:
        lo, hi = (p <= shp.thr - tol).sum(), (p <= shp.thr + tol).sum()
        ok = lo <= cnt <= hi and cnt == int(cnt)
    if not ok:
        raise Violation("features (min, argmin, count) = %s but the distance profile is %s (min %.9g at %d, %d <= %.6g) "
                        "for %r on %s %s" % ((mn, am, cnt), np.round(p, 6).tolist(), p.min(), p.argmin(),
                                             (p <= shp.thr).sum(), shp.thr, shp, np.asarray(x).tolist(), what))


# ------------------------------------------------------------------ the code under test
def R_DST(*a, **k):
    from convst.transformers import R_DST as C
    return C(*a, **k)


def as_kind(kind, series):
    """series: list of (channels, n) arrays -> the container of that kind"""
    if kind in VAR:
        return [np.array(s, dtype=float) for s in series]
    return np.array([np.asarray(s, dtype=float) for s in series])


def dummy_data(kind, channels, n=8):
    c = 1 if kind in UNI else max(2, channels)
    s = [gen(c, n, salt=5 + i) for i in range(3)]
    if kind in VAR:
        s[2] = s[2][:, :-1]
    return as_kind(kind, s), np.array([0, 0, 1])


def pack(kind, shps):
    """The documented layout of shapelets_."""
    ls = np.array([s.l for s in shps], dtype=np.int64)
    ds = np.array([s.d for s in shps], dtype=np.int64)
    th = np.array([s.thr for s in shps], dtype=float)
    nm = np.array([s.norm for s in shps], dtype=bool)
    if kind in UNI:
        v = np.zeros((len(shps), int(ls.max()) if len(shps) else 2))
        for i, s in enumerate(shps):
            v[i, :s.l] = s.values[0]
        return v, ls, ds, th, nm
    v = np.concatenate([s.values.ravel() for s in shps])
    nc = np.array([len(s.channels) for s in shps], dtype=np.int64)
    ch = np.concatenate([np.array(s.channels, dtype=np.int64) for s in shps])
    return v, ls, ds, th, nm, nc, ch


def unpack(est):
    """Fitted shapelets as a list of Shp; the parameter arrays must have one size."""
    t = est.shapelets_
    if len(t) == 5:
        v, ls, ds, th, nm = t
        k = len(ls)
        if not (len(v) == len(ds) == len(th) == len(nm) == k):
            raise Violation("parameter arrays of different sizes: %s" % [len(a) for a in t])
        return [Shp(v[i][:int(ls[i])], ds[i], th[i], nm[i]) for i in range(k)]
    v, ls, ds, th, nm, nc, ch = t
    k = len(ls)
    if not (len(ds) == len(th) == len(nm) == len(nc) == k):
        raise Violation("parameter arrays of different sizes: %s" % [len(a) for a in t])
    out, a, b = [], 0, 0
    for i in range(k):
        l, c = int(ls[i]), int(nc[i])
        vals = np.asarray(v[a:a + l * c])
        if vals.size != l * c or len(ch[b:b + c]) != c:
            raise Violation("value or channel array too short for its shapelets: %s" % [len(q) for q in t])
        out.append(Shp(vals.reshape(c, l), ds[i], th[i], nm[i], [int(z) for z in ch[b:b + c]]))
        a += l * c
        b += c
    if a != len(v) or b != len(ch):
        raise Violation("value or channel array longer than its shapelets: %d != %d or %d != %d" % (
            a, len(v), b, len(ch)))
    return out


_fitted = {}


def with_shapelets(kind, shps, phase, n_ft=2, **params):
    """A fitted estimator of that kind whose shapelets are the given ones (fitted once on dummy data, then shapelets_
    replaced)."""
    key = (kind, bool(phase), n_ft, repr(sorted(params.items())))
    if key not in _fitted:
        X, y = dummy_data(kind, n_ft)
        saved = rt.rng, rt.sched
        rt.rng = rt.sched = None
        _fitted[key] = R_DST(transform_type=kind, phase_invariance=bool(phase), n_shapelets=2, shapelet_lengths=[3],
                             random_state=0, **params).fit(X, y)
        rt.rng, rt.sched = saved
    est = _fitted[key]
    est.shapelets_ = pack(kind, shps)
    return est


def transform(est, X, n, k):
    out = est.transform(X)
    if not isinstance(out, np.ndarray) or out.shape != (n, 3 * k):
        raise Violation("transform returned shape %s instead of %s" % (getattr(out, "shape", type(out)), (n, 3 * k)))
    return out


def same_shapelets(a, b):
    """Bitwise equality of two shapelets_ tuples."""
    if len(a) != len(b):
        return False
    return all(np.asarray(p).shape == np.asarray(q).shape and np.array_equal(np.asarray(p), np.asarray(q), equal_nan=False)
               for p, q in zip(a, b))


def freeze(shapelets):
    return tuple(np.array(a, copy=True) for a in shapelets)


def digest(obj):
    """Hashable value of nested arrays/lists, for snapshots and outcome counting."""
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("O", obj.shape, tuple(digest(x) for x in obj.ravel()))
        return ("A", str(obj.dtype), obj.shape, obj.tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(digest(x) for x in obj))
    if isinstance(obj, dict):
        return ("D", tuple(sorted((repr(k), digest(v)) for k, v in obj.items())))
    if isinstance(obj, (np.generic,)):
        return ("S", str(obj.dtype), obj.tobytes())
    return ("V", repr(obj))
