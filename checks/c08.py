# -*- coding: utf-8 -*-
"""C08: parallel fit and transform do not depend on the thread schedule."""
from .fitlib import *

BOUNDS = {
    "quick": "every distribution of the parallel iterations over <=2 threads (3 for fit), every start order and every interleaving "
             "of their statements with at most 1 preemption; transform: 3 series x 4-6 shapelets (mixed lengths, dilations, "
             "flags, channels); fit: 5 shapelets over 3 dilations, 3 series; 4 kinds x phase; input normalisation too",
    "thorough": "<=3 threads, at most 2 preemptions"}
ASSUMPTIONS = ["a statement of a parallel loop body is atomic; arrays allocated before the loop are shared, names assigned in "
               "the loop are private (numba's rule)"]


def _series(kind, nch, m):
    return [gen(nch, 5 + (i % 2 if kind in VAR else 0), salt=800 + i) for i in range(m)]


def _menu(kind, k):
    out = []
    for q in range(k):
        l, d, norm = [(2, 1, False), (3, 1, True), (2, 1, True), (2, 3, False), (3, 2, False), (3, 1, False)][q % 6]
        ch = [0] if kind in UNI else [[0], [1, 0], [1], [0, 1], [1], [0]][q % 6]
        v = gen(len(ch), l, salt=820 + q)
        out.append(Shp(znorm(v) if norm else v, d, 1.3 + 0.21 * q, norm, ch))
    return out


_ref = {}


def transform_schedules(ctx, kind, phase, m, k, threads, bound, normalize=False):
    nch = 1 if kind in UNI else 2
    X = as_kind(kind, _series(kind, nch, m))
    shps = _menu(kind, k)
    est = with_shapelets(kind, shps, phase, nch, normalize_output=normalize)
    key = ("t", kind, phase, m, k, normalize)
    if key not in _ref:
        _ref[key] = transform(est, X, m, k).copy()
    sched = rt.PreemptionScheduler(ctx, threads=threads, bound=bound)
    rt.sched = sched
    try:
        out = est.transform(X)
    finally:
        rt.sched = None
    if out.shape != _ref[key].shape or not np.allclose(out, _ref[key], rtol=1e-9, atol=1e-9):
        bad = np.argwhere(~np.isclose(out, _ref[key], rtol=1e-9, atol=1e-9)) if out.shape == _ref[key].shape else []
        raise Violation("transform under this schedule differs from sequential execution at %s: %s instead of %s (%s, phase %s)" % (
            [list(map(int, b)) for b in bad[:4]], [float(out[tuple(b)]) for b in bad[:4]],
            [float(_ref[key][tuple(b)]) for b in bad[:4]], kind, phase))
    ctx.outcome = out.tobytes()
    ctx.notes["preemptions"] = sched.preemptions
    ctx.notes["scheduling points"] = sched.points


def fit_schedules(ctx, kind, phase, base, threads, bound, k, prime=False):
    nch = 1 if kind in UNI else 2
    D = data(kind, [7, 8, 7], [0, 1, 0], nch, salt=88)
    kw = dict(transform_type=kind, n_shapelets=k, shapelet_lengths=[2, 3], phase_invariance=phase, random_state=base,
              prime_dilations=prime, proba_norm=0.5, alpha=0.5)

    def run(sched):
        rt.cur_region = 0
        rt.rng, rt.sched = rt.IterRNG(base), sched
        try:
            return freeze(R_DST(**kw).fit(D.X, D.y).shapelets_)
        finally:
            rt.rng = rt.sched = None
    key = ("f", kind, phase, base, k, prime)
    if key not in _ref:
        _ref[key] = run(rt.PreemptionScheduler(ctx, threads=1, bound=0))
        if len(set(_ref[key][2].tolist())) < 2:
            raise Prune()
    sched = rt.PreemptionScheduler(ctx, threads=threads, bound=bound)
    got = run(sched)
    if not same_shapelets(got, _ref[key]):
        raise Violation("fit under this schedule differs from sequential execution for the same draws per iteration: %s instead "
                        "of %s (%s, phase %s)" % ([a.tolist() for a in got], [a.tolist() for a in _ref[key]], kind, phase))
    ctx.outcome = digest(got)
    ctx.notes["preemptions"] = sched.preemptions
    ctx.notes["scheduling points"] = sched.points


def znorm_schedules(ctx, threads, bound):
    from convst.transformers._input_transformers import Z_normalizer
    X = np.array([gen(2, 4, salt=s) for s in range(3)])
    want = np.array([[znorm(r) for r in x] for x in X])
    rt.sched = sched = rt.PreemptionScheduler(ctx, threads=threads, bound=bound)
    try:
        out = Z_normalizer().fit(X).transform(X)
    finally:
        rt.sched = None
    if not np.allclose(out, want, rtol=1e-9, atol=1e-7):
        raise Violation("Z_normalizer under this schedule gives %s" % out.tolist())
    ctx.outcome = out.tobytes()
    ctx.notes["preemptions"] = sched.preemptions


def jobs(tier):
    t = tier == "thorough"
    th, b = (3, 2) if t else (2, 1)
    out = [("input normalisation", "znorm_schedules", dict(threads=3, bound=2), 10)]
    for kind in KINDS:
        for phase in (False, True):
            tag = "%s%s" % (kind, " phase" if phase else "")
            out.append(("transform %s" % tag, "transform_schedules", dict(
                kind=kind, phase=phase, m=3, k=5, threads=th, bound=b), 500))
            out.append(("transform normalised %s" % tag, "transform_schedules", dict(
                kind=kind, phase=phase, m=2, k=3, threads=2, bound=b, normalize=True), 300))
            out.append(("transform one shapelet %s" % tag, "transform_schedules", dict(
                kind=kind, phase=phase, m=4, k=1, threads=4 if t else 3, bound=b), 300))
            for base in (range(6) if t else range(2)):
                for prime in (False, True):
                    out.append(("fit %s %d%s" % (tag, base, " prime" if prime else ""), "fit_schedules", dict(
                        kind=kind, phase=phase, base=base, threads=th if t else 2, bound=b, k=6, prime=prime), 600))
            out.append(("fit three threads %s" % tag, "fit_schedules", dict(
                kind=kind, phase=phase, base=5, threads=3, bound=b, k=4), 600))
    return out
