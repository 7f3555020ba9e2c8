# -*- coding: utf-8 -*-
"""C01: transform outputs equal the definition of the three features."""
import itertools
import numpy as np
from .common import *

BOUNDS = {
    "quick": "values: all series over {0,1,2} with n<=5 timestamps (univariate), all pairs of channels over {0,1}^4 "
             "(multivariate), all (length, dilation) that fit, normalised or not, with and without phase; groups: all "
             "ordered triples of 6 parameter combinations; sizes: all n<=26 and all shapes at generic values; single instances with up to "
             "300 series, 700 shapelets, 1300 timestamps, 40 channels",
    "thorough": "as quick with {0,1,2}^7, channel pairs over {0,1}^5, ordered 4-tuples, n<=48"}


def _shps(kind, n, nch):
    """One shapelet per (shape, norm, threshold, channel set) with values taken from {0,1,2} patterns."""
    out = []
    for q, (l, d) in enumerate(shapes(n)):
        for norm in (False, True):
            base = np.array([[(j * (c + 2) + q) % 3 for j in range(l)] for c in range(nch)], dtype=float)
            sets = [[0]] if nch == 1 else [[0], [1], [0, 1], [1, 0]]
            for m, ch in enumerate(sets):
                v = base[:len(ch)]
                for thr in ((0.0, 1.0, 2.0) if not norm else (0.7317, 1.9131)):
                    if nch > 1 and (m + q + int(thr)) % 2:
                        continue
                    vv = np.array([znorm(r) for r in v]) if norm else v
                    out.append(Shp(vv, d, thr, norm, ch))
    return out


def values(ctx, kind, n, phase, head, alpha):
    nch = 1 if kind in UNI else 2
    first = [ctx.choose(alpha, "x") for _ in range(head)]
    rest = list(itertools.product(range(alpha), repeat=n * nch - head))
    series = [np.array(first + list(r), dtype=float).reshape(nch, n) for r in rest]
    shps = _shps(kind, n, nch)
    if kind in VAR:        # a longer and a shorter neighbour, so that padding exists
        series = series + [np.arange((n + 2) * nch, dtype=float).reshape(nch, n + 2)]
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, series), len(series), len(shps))
    for i, x in enumerate(series):
        for k, s in enumerate(shps):
            check_triple(out[i, 3 * k:3 * k + 3], s, x, phase, exact=not s.norm, what="(kind %s, phase %s)" % (kind, phase))
    ctx.outcome = out.tobytes()
    ctx.notes["feature triples compared"] = out.shape[0] * len(shps)


MENU = [(2, 1, False, [0]), (3, 2, True, [1, 0]), (2, 3, False, [1]), (3, 1, True, [0]), (2, 1, True, [0, 1]),
        (3, 2, False, [2, 0, 1])]


def groups(ctx, kind, phase, k):
    picks = [ctx.choose(len(MENU), "shapelet %d" % i) for i in range(k)]
    shps = []
    for i, q in enumerate(picks):
        l, d, norm, ch = MENU[q]
        ch = [0] if kind in UNI else ch
        v = gen(len(ch), l, salt=100 + 10 * i + q)
        if norm:
            v = znorm(v)
        shps.append(Shp(v, d, 1.0 + 0.173 * i, norm, ch))
    nch = 1 if kind in UNI else 3
    lens = [7, 7] if kind not in VAR else [7, 9, 8]
    series = [gen(nch, n, salt=40 + i) for i, n in enumerate(lens)]
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, series), len(series), k)
    for i, x in enumerate(series):
        for j, s in enumerate(shps):
            check_triple(out[i, 3 * j:3 * j + 3], s, x, phase, False, "(kind %s, phase %s, shapelet %d of %r)" % (
                kind, phase, j, shps))
    ctx.outcome = out.tobytes()
    ctx.notes["feature triples compared"] = len(series) * k


def sizes(ctx, kind, phase, ns, nch, alternate):
    n = ctx.pick(ns, "n")
    nch = 1 if kind in UNI else nch
    series = [gen(nch, n, salt=7 + i) for i in range(2)]
    if kind in VAR:
        series[1] = gen(nch, n + 5, salt=8)
    shps = []
    for q, (l, d) in enumerate(shapes(n)):
        for norm in (False, True):
            if alternate and (q + norm) % 2:
                continue
            i0 = (q * 5) % n
            ch = [0] if kind in UNI else [(q + c) % nch for c in range(1 + q % nch)]
            src = series[q % 2]
            idx = [(i0 + j * d) % n for j in range(l)]
            v = np.array([src[c][idx] for c in ch]) + 0.01
            if norm:
                v = znorm(v)
            shps.append(Shp(v, d, 0.37 * l * len(ch), norm, ch))
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, series), len(series), len(shps))
    for i, x in enumerate(series):
        for j, s in enumerate(shps):
            check_triple(out[i, 3 * j:3 * j + 3], s, x, phase, False, "(kind %s, phase %s, n=%d)" % (kind, phase, n))
    ctx.outcome = out.tobytes()
    ctx.notes["feature triples compared"] = len(series) * len(shps)


def scale(ctx, kind, phase):
    """Large magnitudes, tiny deviations, constants, many samples, many channels."""
    nch = 1 if kind in UNI else 7
    what = ctx.pick(["large", "huge", "small", "tiny", "offset", "const", "negative", "many samples", "many shapelets", "long",
                     "300 samples", "700 shapelets", "very long", "many channels"], "data")
    n, ns, k = 14, 3, 12
    if what == "many samples":
        ns = 70
    if what == "many shapelets":
        k = 140
    if what == "long":
        n = 90
    if what == "300 samples":
        ns, k, n = 300, 6, 10
    if what == "700 shapelets":
        ns, k = 2, 700
    if what == "very long":
        n, ns, k, nch = (1300, 2, 12, 1) if kind in UNI else (650, 2, 8, 2)
    if what == "many channels":
        nch = 1 if kind in UNI else 40
    series = [gen(nch, n + (i % 3 if kind in VAR else 0), salt=300 + i) for i in range(ns)]
    if what == "large":
        series = [s * 1e4 for s in series]
    if what == "huge":
        series = [s * 3e8 for s in series]
    if what == "tiny":
        series = [s * 1e-9 for s in series]
    if what == "offset":         # small deviations far from zero
        series = [s + 2.0 ** 21 for s in series]
    if what == "small":
        series = [s * 1e-3 for s in series]
    if what == "const":
        series[0][:] = 3.5
        series[1][:, 2:9] = -1.25
    if what == "negative":
        series = [-np.abs(s) - 5 for s in series]
    shps = []
    sh = shapes(n) if n < 200 else [(2, n - 1), (3, n // 3), (n // 2 + 50, 1), (n // 5, 4), (11, n // 21), (n - 100, 1), (5, n // 5), (n, 1)]
    for q in range(k):
        l, d = sh[(q * 17) % len(sh)]
        ch = [0] if kind in UNI else [(q * 3 + c) % nch for c in range(1 + q % nch)]
        v = np.array([series[q % ns][c][:l] for c in ch])
        v += 0.001 if what != "tiny" else 1e-12
        norm = bool(q % 2)
        if norm:
            v = znorm(gen(len(ch), l, salt=900 + q))
        shps.append(Shp(v, d, np.abs(v).sum() * 0.7 if what != "offset" else 2.3 * len(ch), norm, ch))
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, series), ns, k)
    for i, x in enumerate(series):
        for j, s in enumerate(shps):
            check_triple(out[i, 3 * j:3 * j + 3], s, x, phase, False, "(kind %s, phase %s, %s)" % (kind, phase, what),
                         1.0 if s.norm or what != "tiny" else 1e-9)
    ctx.outcome = out.tobytes()
    ctx.notes["feature triples compared"] = ns * k


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for phase in (False, True):
            tag = "%s %s" % (kind, "phase" if phase else "plain")
            for n in ((3, 4, 5) if not t else (3, 4, 5, 6, 7)):
                if kind in UNI:
                    out.append(("values %s n=%d" % (tag, n), "values",
                                dict(kind=kind, n=n, phase=phase, head=max(1, n - 3), alpha=3), 3 ** n))
            if kind not in UNI:
                for n in ((3, 4) if not t else (3, 4, 5)):
                    out.append(("values %s n=%d" % (tag, n), "values",
                                dict(kind=kind, n=n, phase=phase, head=2 * n - 4, alpha=2), 4 ** n * 3))
            out.append(("groups %s" % tag, "groups", dict(kind=kind, phase=phase, k=4 if t else 3), 300))
            big = list(range(3, 49 if t else 27))
            for r in range(4):
                out.append(("sizes %s %d" % (tag, r), "sizes", dict(
                    kind=kind, phase=phase, ns=big[r::4], nch=3, alternate=not t), 500))
            out.append(("scale %s" % tag, "scale", dict(kind=kind, phase=phase), 800))
    return out
