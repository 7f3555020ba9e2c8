# -*- coding: utf-8 -*-
"""C03: phase invariance and scale invariance hold."""
from .common import *

BOUNDS = {
    "quick": "rotations: all rotations of all series over {0,1,2}^n, n<=5 (univariate) and {0,1}^(2x4) (multivariate), and of "
             "generic series of every n<=24, shapelets of all (length, dilation); affine: all series over {0,1,2}^n and generic "
             "ones times 11 scales (1e-6 to 1e6) x 8 offsets (per channel)",
    "thorough": "n<=6 / {0,1}^(2x5), generic n<=48"}
SCALES = [1e-6, 1e-4, 2.0 ** -6, 0.1, 0.5, 1.0, 3.0, 7.25, 40.0, 1000.0, 1e6]
EPS = 1e-8                 # documented, added to the standard deviation
OFFSETS = [0.0, 1.0, -1.0, 0.1, -7.5, 64.0, 1000.0, -1e7]


def _shps(kind, n, nch, norm, phase):
    out = []
    for q, (l, d) in enumerate(shapes(n)):
        for ch in ([[0]] if kind in UNI else [[0], [1, 0]] if q % 2 else [[1], [0, 1]]):
            v = np.array([[((j + 1) * (c + 2) + q) % 3 + (0.5 if j == 0 else 0.0) for j in range(l)] for c in range(len(ch))],
                         dtype=float)
            if norm:
                v = np.array([znorm(r) for r in v])
            out.append(Shp(v, d, 1.0 + 0.251 * q, norm, ch))
    return out


def best(shp, x, phase, tol):
    p = shp.profile(x, phase)
    return set(int(i) for i in np.where(p <= p.min() + tol)[0]), p


def rotation(ctx, kind, n, head, alpha):
    nch = 1 if kind in UNI else 2
    first = [ctx.choose(alpha, "x") for _ in range(head)]
    for rest in itertools.product(range(alpha), repeat=n * nch - head):
        x = np.array(first + list(rest), dtype=float).reshape(nch, n)
        _rot(ctx, kind, x, True)
        _rot(ctx, kind, x, False)


def _rot(ctx, kind, x, norm):
    nch, n = x.shape
    shps = _shps(kind, n, nch, norm, True)
    rots = [np.roll(x, r, axis=1) for r in range(n)]
    if kind in VAR:
        rots = rots + [np.tile(x, (1, 2))]
    est = with_shapelets(kind, shps, True, nch)
    out = transform(est, as_kind(kind, rots), len(rots), len(shps))
    tol = TOL * (1 + np.abs(x).max() * 4)
    for k, s in enumerate(shps):
        p0 = None
        for r in range(n):
            mn, am, cnt = out[r, 3 * k:3 * k + 3]
            m0, a0, c0 = out[0, 3 * k:3 * k + 3]
            if abs(mn - m0) > tol:
                raise Violation("rotating by %d changes the minimum distance from %r to %r (%r on %s)" % (
                    r, m0, mn, s, x.tolist()))
            if p0 is None:
                B, p0 = best(s, x, True, tol)
            if cnt != c0 and (norm or not float(x.sum()).is_integer()) and \
                    (np.abs(p0 - s.thr) <= tol).any():
                pass                                   # a distance equal to the threshold up to rounding
            elif cnt != c0:
                raise Violation("rotating by %d changes the occurrence count from %r to %r (%r on %s)" % (
                    r, c0, cnt, s, x.tolist()))
            if (int(am) - r) % n not in B:
                raise Violation("rotating by %d moves the best position from %s to %d, the best positions being %s (%r on %s)" % (
                    r, a0, am, sorted(B), s, x.tolist()))
    ctx.outcome = (ctx.outcome, out.tobytes())
    ctx.notes["rotations compared"] = ctx.notes.get("rotations compared", 0) + n * len(shps)


def generic_rotation(ctx, kind, ns, nch):
    n = ctx.pick(ns, "n")
    norm = ctx.bool("norm")
    _rot(ctx, kind, gen(1 if kind in UNI else nch, n, salt=n), norm)


def affine(ctx, kind, phase, n, nch, values):
    nch = 1 if kind in UNI else nch
    if values:
        x = np.array([ctx.choose(3, "x") for _ in range(n)], dtype=float)
        x = np.array([x] + [(x * 2 + np.arange(n)) % 3 for _ in range(nch - 1)])
    else:
        x = gen(nch, n, salt=n)
    shps = _shps(kind, n, nch, True, phase)
    maps = [(a, b) for a in SCALES for b in OFFSETS]
    series = [x] + [np.array([a * (1 + 0.5 * c) * x[c] + b * (1 - 2 * c) for c in range(nch)]) for a, b in maps]
    est = with_shapelets(kind, shps, phase, nch)
    out = transform(est, as_kind(kind, series), len(series), len(shps))
    tol = {}
    for k, s in enumerate(shps):
        p = s.profile(x, phase)
        m0, a0, c0 = out[0, 3 * k:3 * k + 3]
        if (s.l, s.d) not in tol:
            sd = np.concatenate([windows(c, s.l, s.d, phase).std(axis=1) for c in x])
            const = (sd <= 1e-12).any()
            sd = sd[sd > 1e-12]
            tol[s.l, s.d] = sd.min() if len(sd) else None, const
        for r, (a, b) in enumerate(maps):
            mn, am, cnt = out[r + 1, 3 * k:3 * k + 3]
            # windows of deviation sd are divided by a*sd + EPS; rounding of the series is amplified by 1/(a*sd) or 1/EPS
            (sd, const), big = tol[s.l, s.d], 4e-16 * (abs(b) + 2 * a * np.abs(x).max()) * s.l
            t = 1e-9 + (big / EPS if const else 0)
            if sd is not None:
                t += 1.5 * EPS / (min(a, 1.0) * sd) + big / (a * sd)
            t *= s.l * len(s.channels)
            near = (np.abs(p - s.thr) <= 2 * t).any()
            B = set(np.where(p <= p.min() + 2 * t)[0].tolist())
            if abs(mn - m0) > t or (cnt != c0 and not near) or int(am) not in B:
                raise Violation("replacing the series x by %g*x%+g changes (min, argmin, count) from %s to %s (%r on %s)" % (
                    a, b, (m0, a0, c0), (mn, am, cnt), s, x.tolist()))
    ctx.outcome = out.tobytes()
    ctx.notes["affine images compared"] = len(maps) * len(shps)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for n in ((3, 4, 5) if not t else (3, 4, 5, 6)):
            if kind in UNI:
                out.append(("rotation %s n=%d" % (kind, n), "rotation", dict(kind=kind, n=n, head=n - 2, alpha=3), 3 ** n))
        if kind not in UNI:
            for n in ((3, 4) if not t else (3, 4, 5)):
                out.append(("rotation %s n=%d" % (kind, n), "rotation", dict(kind=kind, n=n, head=2 * n - 3, alpha=2), 4 ** n))
        top = 49 if t else 25
        for r in range(4):
            out.append(("generic rotation %s %d" % (kind, r), "generic_rotation", dict(
                kind=kind, ns=list(range(3 + r, top, 4)), nch=3), 800))
        for phase in (False, True):
            for n in (3, 4, 5):
                out.append(("affine %s %s n=%d" % (kind, phase, n), "affine", dict(
                    kind=kind, phase=phase, n=n, nch=2, values=True), 4 * 3 ** n))
            for n in (8, 13, 20) + ((31, 40) if t else ()):
                out.append(("affine generic %s %s n=%d" % (kind, phase, n), "affine", dict(
                    kind=kind, phase=phase, n=n, nch=3, values=False), 500))
    return out
