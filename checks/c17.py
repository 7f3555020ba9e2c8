# -*- coding: utf-8 -*-
"""C17: input transformers compute their documented transforms."""
from .fitlib import *

BOUNDS = {
    "quick": "all series over {0,1,3}^n, n <= 6, embedded in batches of 1-3 samples and 1-3 channels; all orders 1-4, 16 windows, Hankel "
             "options; containers 3D (C, Fortran, views), lists, object arrays; 8 dtypes; equal and mixed lengths; up to 300 series, 33 channels, 1030 timestamps; all batches of 2-3 "
             "samples over a pool",
    "thorough": "n <= 8"}
WINDOWS = ["boxcar", "triang", "blackman", "hamming", "hann", "bartlett", "flattop", "parzen", "bohman", "blackmanharris", "nuttall",
           "barthann", "cosine", "exponential", "tukey", "taylor"]
HANKEL = [{}, dict(mu=0), dict(mu=2, bias=0.3), dict(dln=0.05, mu=0.5, use_optimal_offset=False),
          dict(use_optimal_offset=False, offset=0.2, bias=-0.1)]


def it():
    from convst.transformers import _input_transformers as m
    return m


# -- definitions, per channel --------------------------------------------------
def d_diff(x, order):
    x = [float(v) for v in x]
    for _ in range(order):
        x = [b - a for a, b in zip(x, x[1:])]
    return np.array(x)


_win = {}


def d_periodogram(x, window):
    from scipy.signal import get_window
    n = len(x)
    if (window, n) not in _win:
        k = np.arange(n // 2 + 1)
        _win[window, n] = (get_window(window, n), np.exp(-2j * np.pi * np.outer(k, np.arange(n)) / n))
    w, E = _win[window, n]
    p = np.abs(E.dot(w * np.asarray(x, dtype=float))) ** 2 / (w ** 2).sum()
    p[1:] *= 2
    if n % 2 == 0:
        p[-1] /= 2
    return p


def d_znorm(x):
    x = np.asarray(x, dtype=float)
    return (x - x.mean()) / (np.sqrt(((x - x.mean()) ** 2).mean()) + 1e-8)


def d_hankel(x, dln=0.01, mu=1, offset=0.0, bias=0.0, use_optimal_offset=True):
    from scipy.fft import fht, fhtoffset
    off = fhtoffset(dln, mu, bias=bias) if use_optimal_offset else offset
    return fht(np.asarray(x, dtype=float), dln, mu, offset=off, bias=bias)


def cases():
    """name -> (constructor, definition, accepts variable length, smallest length)"""
    m = it()
    out = {"raw": (m.Raw, lambda x: np.asarray(x, dtype=float), True, 1), "znorm": (m.Z_normalizer, d_znorm, False, 3)}
    for k in (1, 2, 3, 4):
        out["diff%d" % k] = (lambda k=k: m.Derivate(order=k), lambda x, k=k: d_diff(x, k), True, k + 1)
    out["diff default"] = (m.Derivate, lambda x: d_diff(x, 1), True, 2)
    out["periodogram default"] = (m.Periodigram, lambda x: d_periodogram(x, "boxcar"), True, 1)
    for w in WINDOWS:
        out["periodogram %s" % w] = (lambda w=w: m.Periodigram(window_type=w), lambda x, w=w: d_periodogram(x, w), True, 2)
    for i, o in enumerate(HANKEL):
        out["hankel%d" % i] = (lambda o=o: m.FastHankelTransform(**o), lambda x, o=o: d_hankel(x, **o), False, 2)
    return out


def compare(name, out, series, ref, what):
    if len(out) != len(series):
        raise Violation("%s returns %d series for %d (%s)" % (name, len(out), len(series), what))
    for i, x in enumerate(series):
        got = np.asarray(out[i], dtype=float)
        want = np.array([ref(c) for c in x])
        tol = 1e-6 * (1 + np.abs(want).max()) if want.size else 0
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-5, atol=tol):
            raise Violation("%s of series %s (number %d of %s) is %s instead of %s" % (
                name, np.asarray(x).tolist(), i, what, got.tolist(), want.tolist()))


def apply(name, X, series, ref, make, what):
    before = digest(X)
    est = make()
    r = est.fit(X)
    if r is not est:
        raise Violation("fit of %s does not return the transformer" % name)
    compare(name, est.transform(X), series, ref, what)
    compare(name, make().fit_transform(X), series, ref, what + ", fit_transform")
    if digest(X) != before:
        raise Violation("%s modifies its input (%s)" % (name, what))
    return est


def values(ctx, name, n, alphabet):
    """One enumerated series, in every sample and channel position of batches up to 3 x 3."""
    make, ref, var, nmin = cases()[name]
    if n < nmin:
        raise Prune()
    s = [ctx.pick(alphabet, "value") for _ in range(n)]
    m, c = [(1, 1), (2, 1), (1, 2), (3, 2), (2, 3)][sum(s) % 5]
    pos = (len(set(s)) * 7 + int(s[0])) % (m * c)
    series = [np.array([s if i * c + j == pos else gen(n, salt=1700 + i * 3 + j) for j in range(c)], dtype=float) for i in range(m)]
    forms = [("3D", np.array(series)), ("fortran", np.asfortranarray(np.array(series)))]
    if name in ("raw", "diff1", "diff default", "periodogram default"):
        o = np.empty(m, dtype=object)
        for i in range(m):
            o[i] = series[i]
        forms += [("list", series), ("object", o)]
    f, X = forms[int(sum(s)) % len(forms)] if max(s) > min(s) else forms[0]
    est = apply(name, X, series, ref, make, f)
    if name == "znorm" and len(set(s)) == 1:
        got = est.transform(np.array([[s]], dtype=float))
        if np.abs(got).max() > 1e-6:
            raise Violation("the constant channel %s is normalised to %s" % (s, got.tolist()))
    ctx.outcome = np.asarray(ref(s)).tobytes()


def shapes_(ctx, name):
    """All shapes x containers x dtypes; series of different lengths; a transformer fitted on other data."""
    make, ref, var, nmin = cases()[name]
    m, c = 1 + ctx.choose(3, "series"), 1 + ctx.choose(3, "channels")
    n = max(nmin, 3) + ctx.choose(4, "timestamps")
    mixed = var and ctx.bool("mixed lengths")
    lens = [n + ((2, 0, 3)[i] if mixed else 0) for i in range(m)]
    series = [np.round(np.abs(gen(c, l, salt=1720 + i)) * 25) for i, l in enumerate(lens)]
    forms = ["list", "object"] if mixed else ["3D", "fortran", "view", "read-only"] + (["list", "object"] if var else [])
    form = ctx.pick(forms, "form")
    dtype = ctx.pick(["float64", "float32", "int64", "int32", "int8", "uint8", "uint64", ">f8"], "dtype") if form in (
        "3D", "list") else "float64"
    s = [x.astype(dtype) for x in series]
    if form == "3D":
        X = np.array(s)
    elif form == "fortran":
        X = np.asfortranarray(np.array(s))
    elif form == "view":
        X = np.repeat(np.array(s), 2, axis=2)[:, :, ::2]
    elif form == "read-only":
        X = np.array(s)
        X.flags.writeable = False
    elif form == "list":
        X = s
    else:
        X = np.empty(m, dtype=object)
        for i in range(m):
            X[i] = s[i]
    est = apply(name, X, series, ref, make, "%s of %s x %d channels, %s" % (form, lens, c, dtype))
    # fitted once, applied to other data; each series on its own
    other = [np.round(gen(c, lens[0] + 2, salt=1740 + i) * 4) for i in range(2)]
    Y = other if form in ("list", "object") else np.array(other)
    compare(name, est.transform(Y), other, ref, "data other than fit's")
    compare(name, est.fit(Y).transform(X), series, ref, "after another fit")
    ctx.outcome = (m, c, tuple(lens), form)


def batches(ctx, name, kind):
    """Each series independently: all batches over a pool, against the series alone."""
    make, ref, var, nmin = cases()[name]
    n = max(nmin, 3)
    nch = 1 if kind in UNI else 2
    pool = [gen(nch, n + (i % 2 if kind in VAR else 0), salt=1760 + i) for i in range(2)]
    pool += [np.ones((nch, n)), np.array([np.arange(n + (2 if kind in VAR else 0)) * (j + 1.) for j in range(nch)]),
             np.array([[10 ** (i % 3) for i in range(n)]] * nch, dtype=float)]
    k = 1 + ctx.choose(3, "size")
    idx = [ctx.choose(len(pool), "series") for _ in range(k)]
    series = [pool[i] for i in idx]
    apply(name, as_kind(kind, series), series, ref, make, "batch %s" % idx)
    ctx.outcome = tuple(idx)


def large(ctx, name):
    """Many series, many channels, long series."""
    make, ref, var, nmin = cases()[name]
    m, c, n = ctx.pick([(70, 1, 9), (2, 33, 12), (1, 2, 257), (2, 1, 1030), (300, 1, 5)], "size")
    series = [gen(c, n + (i % 3 if var and c == 1 and m < 100 else 0), salt=1790 + i) * 3 + i for i in range(m)]
    X = series if len(set(x.shape for x in series)) > 1 else np.array(series)
    apply(name, X, series, ref, make, "%d series, %d channels, %d timestamps" % (m, c, n))
    ctx.outcome = (m, c, n)


def dataset_norm(ctx, which):
    """Normalisation of whole data sets (in place or not)."""
    from convst.utils import dataset_utils as d
    m, c = 1 + ctx.choose(3, "series"), 1 + ctx.choose(2, "channels")
    n = 3 + ctx.choose(2, "timestamps")
    s = [ctx.pick((0.0, 1.0, 4.0), "value") for _ in range(n)]
    lens = [n + (i if which == "list" else 0) for i in range(m)]
    series = [np.array([s + [2.5] * (l - n) if (i + j) % 2 == 0 else gen(l, salt=1780 + i + j) for j in range(c)]) for i, l in enumerate(lens)]
    X = [a.copy() for a in series]
    out = d.z_norm_3D_list(X) if which == "list" else d.z_norm_3D(np.array(X))
    compare("data set normalisation", out, series, d_znorm, "%s" % lens)
    ctx.outcome = np.asarray(out[0]).tobytes()


def jobs(tier):
    t = tier == "thorough"
    out = []
    for name in cases():
        for n in range(1, 9 if t else 7):
            if name.startswith("periodogram ") and name not in ("periodogram default", "periodogram hann") and n > 5 and not t:
                continue
            out.append(("%s n=%d" % (name, n), "values", dict(name=name, n=n, alphabet=(0, 1, 3)), 3 ** n))
        out.append(("%s large" % name, "large", dict(name=name), 30))
        out.append(("%s shapes" % name, "shapes_", dict(name=name), 300))
        for kind in KINDS:
            if kind in VAR and not cases()[name][2]:
                continue
            out.append(("%s batches %s" % (name, kind), "batches", dict(name=name, kind=kind), 100))
    for w in ("array", "list"):
        out.append(("data set %s" % w, "dataset_norm", dict(which=w), 200))
    return out
