# -*- coding: utf-8 -*-
"""C02: a transformed row depends only on its own series."""
from .common import *

BOUNDS = {
    "quick": "all sequences with repetition of 1-3 series of a pool of 5 (lengths 4-9, zeros, constants), all 1-2 shapelet groups "
             "of a menu of 8, 4 kinds x phase; batches of 40 in every rotation, of 300 in 4; lists and object arrays",
    "thorough": "sequences of 1-4 of a pool of 6, batches of 90"}


def pool(kind, nch, n=5):
    lens = [6, 4, 9, 5, 7, 12] if kind in VAR else [6] * 6
    out = []
    for i in range(n):
        s = gen(nch, lens[i], salt=500 + i)
        if i == 1:
            s = s + 40.0          # far from zero: zero padding would win or lose visibly
        if i == 3:
            s[:] = 2.0
        if i == 4:
            s[:, :3] = 0.0
        out.append(s)
    return out


def menu(kind, nch):
    out = []
    for q, (l, d, norm) in enumerate([(2, 1, False), (3, 1, True), (2, 3, False), (4, 1, False), (2, 2, True), (3, 1, False)]):
        ch = [0] if kind in UNI else [[0], [1], [0, 1], [1, 0], [0], [1]][q]
        v = gen(len(ch), l, salt=550 + q)
        if norm:
            v = znorm(v)
        out.append(Shp(v, d, 1.5 + 0.371 * q, norm, ch))
    z = [0] if kind in UNI else [0, 1]
    out.append(Shp(np.zeros((len(z), 2)), 2, 0.25, False, z))       # would match zero padding
    out.append(Shp(np.zeros((len(z), 3)), 1, 0.5, True, z))
    return out


_alone = {}


def alone(kind, phase, shps, x, key, **kw):
    key = (kind, phase, key, repr(kw))
    if key not in _alone:
        est = with_shapelets(kind, shps, phase, 2, **kw)
        _alone[key] = transform(est, as_kind(kind, [x]), 1, len(shps))[0].copy()
    return _alone[key]


def same(a, b):
    """Equal up to rounding (a different summation order is allowed), counts and positions exactly unless a tie is at stake."""
    return np.allclose(a, b, rtol=1e-9, atol=1e-9)


def sequences(ctx, kind, phase, first, depth, npool):
    nch = 1 if kind in UNI else 2
    P = pool(kind, nch, npool)
    M = menu(kind, nch)
    shps = M[first:] + M[:first] if first < len(M) else [M[0], M[6]]
    n = 1 + ctx.choose(depth, "batch size")
    seq = [ctx.choose(npool, "series") for _ in range(n)]
    form = "list"
    kw = dict(normalize_output=True) if first % 3 == 2 else {}
    est = with_shapelets(kind, shps, phase, nch, **kw)
    X = as_kind(kind, [P[i] for i in seq])
    if kind in VAR and len(set(len(P[i][0]) for i in seq)) > 1 and ctx.bool("object array"):
        a = np.empty(len(seq), dtype=object)
        for q, i in enumerate(seq):
            a[q] = P[i]
        X, form = a, "object array"
    out = transform(est, X, n, len(shps))
    for r, i in enumerate(seq):
        ref = alone(kind, phase, shps, P[i], (first, i), **kw)
        if not same(out[r], ref):
            raise Violation("row %d of batch %s (%s, phase %s, %s) is %s but the series alone gives %s; shapelets %s" % (
                r, seq, kind, phase, form, out[r].tolist(), ref.tolist(), shps))
    ctx.outcome = out.tobytes()
    ctx.notes["rows compared with the series transformed alone"] = n


def large(ctx, kind, phase, size):
    nch = 1 if kind in UNI else 2
    rot = ctx.choose(size, "rotation") if size < 200 else ctx.pick([0, 1, size // 2, size - 2], "rotation")
    series = [gen(nch, 6 + ((i * 7) % 11 if kind in VAR else 3), salt=600 + i) + (i % 3) * 5 for i in range(size)]
    shps = menu(kind, nch)
    order = [(i + rot) % size for i in range(size)]
    if rot % 2:
        order = order[::-1]
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, [series[i] for i in order]), size, len(shps))
    for r, i in enumerate(order):
        ref = alone(kind, phase, shps, series[i], ("large", i))
        if not same(out[r], ref):
            raise Violation("row %d of a batch of %d (%s, phase %s) is %s but the series alone gives %s" % (
                r, size, kind, phase, out[r].tolist(), ref.tolist()))
    ctx.outcome = out.tobytes()
    ctx.notes["rows compared with the series transformed alone"] = size


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for phase in (False, True):
            for first in range(9):
                out.append(("sequences %s %s %d" % (kind, phase, first), "sequences", dict(
                    kind=kind, phase=phase, first=first, depth=4 if t else 3, npool=6 if t else 5), 100))
            out.append(("large %s %s" % (kind, phase), "large", dict(kind=kind, phase=phase, size=90 if t else 40), 300))
            out.append(("larger %s %s" % (kind, phase), "large", dict(kind=kind, phase=phase, size=300), 300))
    return out
