# -*- coding: utf-8 -*-
"""C32: the unit of measurement does not matter."""
from .compose import *

BOUNDS = {
    "quick": "all random draws (length, dilation, flag, channels, sample, start, thresholds at both ends) of fits of 1 shapelet on 3 series of 5-7 timestamps "
             "(2 on 2 series for univariate data), each repeated with the same draws on the data times 3 powers of two (of both signs, up to 2**300) and plus an offset; "
             "random_state 0..5 for 20 shapelets on series of 13-19 timestamps x 14 factors and offsets x options; ridge classifier and "
             "ensemble x 6 factors x random_state 0..5 without normalised shapelets; 4 kinds x phase x normalisation 0, 0.5, 1",
    "thorough": "series of 7-9 timestamps, 2 shapelets for every kind; random_state 0..59"}

FACTORS = [(-1.0, 0.0), (2.0 ** 20, 0.0), (-2.0 ** 300, 0.0), (2.0 ** -30, 0.0), (1.0, 64.0), (-4.0, -32.0), (2.0 ** 60, 0.0), (2.0 ** -300, 0.0),
           (-2.0 ** -9, 0.0), (2.0 ** 6, 2.0 ** 13), (1.0, -1.0), (2.0 ** 100, 0.0), (-2.0 ** 33, 0.0), (1.0, 2.0 ** 15)]


class Again(object):
    """The draws of a previous execution, once more"""

    def __init__(self, ctx, a):
        self.todo = list(zip(ctx.path[a:], ctx.width[a:]))
        self.path, self.width = [], []

    def choose(self, n, label=""):
        if not self.todo:
            raise Violation("more random draws in another unit (%s)" % label)
        c, w = self.todo.pop(0)
        if w != n:
            raise Violation("a random draw among %d values, among %d in another unit (%s)" % (w, n, label))
        self.path.append(c)
        return c

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)] if len(seq) > 1 else seq[0]

    def bool(self, label=""):
        return bool(self.choose(2, label))


def dyadic(kind, lens, nch, salt):
    """Series of multiples of 1/16 below 2**5: scaling by powers of two, adding integers and subtracting are exact"""
    D = data(kind, lens, [0] * len(lens), nch, salt=salt, scale=4.0)
    out = []
    for x in D.series:
        x = np.round(x * 16) / 16
        x[x == 0] = 0.5
        out.append(x)
    return out


def in_unit(kind, series, c, b):
    return as_kind(kind, [x * c + b for x in series])


def compare(kind, phase, c, b, a1, a2, T, F1, F2, pn, what, full=True):
    """a1, F1: shapelets and features of the original data; a2, F2: of the data times c plus b"""
    s = abs(c)
    if len(a1) != len(a2):
        raise Violation("%d shapelets, %d %s" % (len(a1), len(a2), what))
    for i, (p, q) in enumerate(zip(a1, a2)):
        if (p.l, p.d, bool(p.norm), list(p.channels)) != (q.l, q.d, bool(q.norm), list(q.channels)):
            raise Violation("shapelet %d is %s, %s %s" % (i, p, q, what))
        if not p.norm:
            ok = np.array_equal(p.values * c + b, q.values) and q.thr == p.thr * s
        else:
            ok = np.allclose(p.values * np.sign(c), q.values, rtol=1e-5, atol=1e-5) and abs(p.thr - q.thr) <= 1e-5 * (1 + abs(p.thr))
        if not ok:
            raise Violation("shapelet %d is %s (threshold %s), %s (threshold %s) %s" % (i, p.values.tolist(), p.thr, q.values.tolist(), q.thr, what))
        for j, x in enumerate(T):
            u, v = F1[j, 3 * i:3 * i + 3], F2[j, 3 * i:3 * i + 3]
            if not p.norm:
                if not (v[0] == u[0] * s and v[1] == u[1] and v[2] == u[2]):
                    raise Violation("features %s, %s %s" % (u.tolist(), v.tolist(), what))
            else:
                prof = p.profile(x, phase)
                e = 1e-5 * (1 + prof.max())
                if not (abs(v[0] - u[0]) <= e and prof[int(v[1])] <= prof.min() + 2 * e
                        and (prof < p.thr - 2 * e).sum() <= v[2] <= (prof <= p.thr + 2 * e).sum()):
                    raise Violation("features of a normalised shapelet %s, %s %s" % (u.tolist(), v.tolist(), what))


def draws(ctx, kind, lens, k, phase, pn, lengths, factors, dil="dense"):
    nch = 1 if kind in UNI else 2
    S = dyadic(kind, lens, nch, 3200)
    T = dyadic(kind, [lens[0] + 1, lens[0]] if kind in VAR else [lens[0]] * 2, nch, 3201)
    y = [0, 0, 1][:len(lens)]
    o = dict(n_shapelets=k, shapelet_lengths=lengths, phase_invariance=phase, proba_norm=pn, transform_type=kind, random_state=None)

    def model(rng, c, b):
        rt.rng = rng
        try:
            est = R_DST(**o).fit(in_unit(kind, S, c, b), y)
        finally:
            rt.rng = None
        return unpack(est), np.array(est.transform(in_unit(kind, T, c, b)))
    a = len(ctx.path)
    thr = (0.0, ALMOST1) if pn == 0 else (0.5,)
    a1, F1 = model(FitRNG(ctx, thr=thr, dil=dil), 1.0, 0.0)
    for c, b in factors:
        again = Again(ctx, a)
        a2, F2 = model(FitRNG(again, thr=thr, dil=dil), c, b)
        what = "for the data times %g plus %g (%s, phase %s, normalisation %s)" % (c, b, kind, phase, pn)
        if again.todo:
            raise Violation("fewer random draws " + what)
        compare(kind, phase, c, b, a1, a2, T, F1, F2, pn, what)
    ctx.outcome = (kind, phase, pn, tuple(ctx.path))


def seeds(ctx, kind, phase, states):
    nch = 1 if kind in UNI else 3
    n = 13
    S = dyadic(kind, [n, n + 3, n + 6, n + 1, n + 2], nch, 3210)
    T = dyadic(kind, [n + 5, n, n + 2] if kind in VAR else [n] * 3, nch, 3211)
    seed = ctx.choose(states, "random_state")
    c, b = ctx.pick(FACTORS, "unit")
    small = abs(c) < 2.0 ** -10
    pn = ctx.pick([0.0] if small or abs(b) > 2.0 ** 14 else [0.0, 0.5, 1.0], "normalisation")
    o = dict(n_shapelets=20, shapelet_lengths=[3, 5, 0.6], phase_invariance=phase, proba_norm=pn, transform_type=kind, random_state=seed,
             prime_dilations=seed % 2 == 1, alpha=(0.2, 0.5, 0.8)[seed % 3], percentiles=[[5, 10], [0, 50], [20, 100]][seed // 2 % 3],
             n_samples=[None, 0.8, 1.4][seed % 3], normalize_output=False)

    def model(c, b):
        est = R_DST(**o).fit(in_unit(kind, S, c, b), ["u", "v", "u", "v", "u"])
        return unpack(est), np.array(est.transform(in_unit(kind, T, c, b)))
    a1, F1 = model(1.0, 0.0)
    a2, F2 = model(c, b)
    compare(kind, phase, c, b, a1, a2, T, F1, F2, pn, "for the data times %g plus %g (%s, %s)" % (c, b, kind, o))
    ctx.outcome = (kind, phase, seed, c, b, pn, digest(F1))


UNITS = [(-1.0, 0.0), (2.0 ** 20, 0.0), (-2.0 ** 30, 0.0), (2.0 ** -12, 0.0), (1.0, 64.0), (-8.0, -32.0)]


def classifier(ctx, kind, model, states):
    nch = 1 if kind in UNI else 2
    S = dyadic(kind, [14, 12, 13, 15, 12, 14], nch, 3220)
    T = dyadic(kind, [13, 12, 16, 14] if kind in VAR else [14] * 4, nch, 3221)
    y = np.array(["u", "v", "w", "u", "v", "w"])
    seed = ctx.choose(states, "random_state")
    # the periodogram of shifted data is the same only up to rounding
    c, b = ctx.pick(UNITS if model == "ridge" else [u for u in UNITS if u[1] == 0], "unit")
    o = dict(random_state=seed, shapelet_lengths=[3, 5], phase_invariance=seed % 3 == 1, normalize_output=seed % 3 == 2)

    def run(c, b):
        if model == "ridge":
            from convst.classifiers import R_DST_Ridge
            est = R_DST_Ridge(n_shapelets=12, proba_norm=0.0, **o)
        else:
            from convst.classifiers import R_DST_Ensemble
            est = R_DST_Ensemble(n_shapelets_per_estimator=8, n_jobs=1, proba_norm=[0.0] * 3, **o)
        est.fit(in_unit(kind, S, c, b), y)
        p = np.asarray(est.predict(in_unit(kind, T, c, b))).tolist()
        return p, [float(w) for w in est.model_weights] if model == "ensemble" else None
    u, v = run(1.0, 0.0), run(c, b)
    if u != v:
        raise Violation("predictions (and weights) %s, %s for the data times %g plus %g (%s %s, %s)" % (u, v, c, b, model, kind, o))
    ctx.outcome = (kind, model, seed, c, b, tuple(u[0]))


def jobs(tier):
    t = tier == "thorough"
    out = []
    for i, kind in enumerate(KINDS):
        uni, var = kind in UNI, kind in VAR
        for phase in (False, True):
            for pn in (0.0, 0.5, 1.0):
                n = 5 if not t else 7
                if not uni:
                    n -= 1
                lens = [n + 2, n, n + 1] if var else [n + 1] * 3
                exact = FACTORS[:8] if pn == 0 else [f for f in FACTORS[:6] if abs(f[0]) >= 1]
                m = (i + int(phase)) % 2
                out.append(("draws %s phase=%s norm=%s" % (kind, phase, pn), "draws", dict(
                    kind=kind, lens=lens, k=1, phase=phase, pn=pn, lengths=[2, 3] if pn == 0 else [3, 4],
                    factors=exact if t else [exact[m], exact[2 + m], exact[-2 + m] if pn == 0 else exact[-1 - m]]), 300))
                if uni or t:
                    out.append(("two draws %s phase=%s norm=%s" % (kind, phase, pn), "draws", dict(
                        kind=kind, lens=[5, 4] if var else [5, 5], k=2, phase=phase, pn=pn, lengths=[3],
                        factors=exact[1:3], dil=(0.0, ALMOST1)), 1000))
            out.append(("random states %s phase=%s" % (kind, phase), "seeds", dict(kind=kind, phase=phase, states=60 if t else 6), 100))
        for model in ("ridge", "ensemble"):
            out.append(("%s %s" % (model, kind), "classifier", dict(kind=kind, model=model, states=30 if t else 6), 50))
    return out
