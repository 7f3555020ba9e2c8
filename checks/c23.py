# -*- coding: utf-8 -*-
"""C23: sample subsampling restricts extraction to an aligned subset."""
from .fitlib import *

BOUNDS = {
    "quick": "all draws (subset, order, extraction) of fits of 1-2 shapelets with n_samples 0.34..0.8 on 3-4 series of 4-6 "
             "timestamps, 4 kinds x phase; random_state 0..23 for 60 shapelets on 12 series, proportions 0.2..0.9, None, 1, 1.5; "
             "per-fit: sources and threshold series must fit in one subset of the right size; aggregate: every series reachable",
    "thorough": "5 series, random_state 0..199"}


def subset_ok(D, shps, phase, m, what):
    """One subset of at most m series must explain every source and every threshold (percentiles 0, 0)."""
    pairs = check_threshold_any(D, shps, phase, what)
    used = set()
    for p in pairs:
        if len(p) != 1:
            raise Prune()
        used |= set(p[0])
    if len(used) > m:
        raise Violation("series %s are used although only %d of %d were to be drawn %s" % (sorted(used), m, len(D.y), what))
    for (i, j), in pairs:
        if i == j and any(D.y[k] == D.y[i] and k != i for k in used):
            raise Violation("the threshold of a shapelet of series %d was computed on itself although %s of its class are in the "
                            "subset %s" % (i, sorted(used), what))
    return used


def check_threshold_any(D, shps, phase, what):
    out = []
    for s in shps:
        src = sorted(set(i for i, _ in D.sources(s, phase)))
        if not src:
            raise Violation("shapelet %r is no window of a training series %s" % (s, what))
        ex = []
        for i in src:
            for j in range(len(D.y)):
                p = s.profile(D.series[j], phase)
                if abs(p.min() - s.thr) <= 1e-9 * (1 + p.max()):
                    if D.y[j] == D.y[i]:
                        ex.append((i, j))
        if not ex:
            raise Violation("threshold %.9g of %r (from series %s) is the minimum of no profile to a series of its class, y=%s %s" % (
                s.thr, s, src, D.y.tolist(), what))
        out.append(ex)
    return out


def draws(ctx, acc, kind, lens, y, prop, k, phase):
    D = data(kind, lens, y, 2, salt=230)
    est = fit_draws(ctx, D, FitRNG(ctx, unit=(0.5,), dil=(0.0,), thr=(0.5,)), n_shapelets=k, shapelet_lengths=[3],
                    phase_invariance=phase, proba_norm=0.0, percentiles=[0, 0], n_samples=prop, max_channels=1, alpha=0.0)
    shps = unpack(est)
    m = int(len(lens) * prop)
    what = "(%s, n_samples=%s, series lengths %s, phase %s)" % (kind, prop, D.lens, phase)
    subset_ok(D, shps, phase, m, what)
    for s in shps:
        acc.setdefault("src", set()).update(i for i, _ in D.sources(s, phase))
    if len(shps) < min(k, 1):
        raise Violation("no shapelet %s" % what)
    ctx.outcome = repr(shps)
    ctx.notes["shapelets traced to a subset"] = len(shps)


def draws_finish(acc, st, kind, lens, y, prop, k, phase):
    if not st.capped and acc.get("src", set()) != set(range(len(lens))):
        raise Violation("with n_samples=%s only series %s can be drawn out of %d" % (
            prop, sorted(acc.get("src", set())), len(lens)))


def seeds(ctx, acc, kind, n, phase, states, prop):
    seed = ctx.choose(states, "random_state")
    ns = 12
    y = [[0, 1] * 6, [0] * 12, [2, 0, 1] * 4][seed % 3]
    if seed % 2:
        y = [["q", "b", "m"][c] for c in y]
    D = data(kind, [n + (i * 5) % 7 for i in range(ns)], y, 3, salt=n)
    est = fit_seed(D, seed, n_shapelets=60, shapelet_lengths=[3, 5], phase_invariance=phase, proba_norm=0.3,
                   percentiles=[0, 0], n_samples=prop, alpha=0.1)
    shps = unpack(est)
    m = ns if prop is None or prop == 1.0 else int(ns * prop)
    what = "(%s, n_samples=%s, phase %s, random_state %d)" % (kind, prop, phase, seed)
    if prop is not None and prop > 1:
        check_threshold_any(D, shps, phase, what)
        used = range(ns)
    else:
        used = subset_ok(D, shps, phase, m, what)
    if len(used) < 2 and m > 3:
        raise Violation("60 shapelets from %s only %s" % (sorted(used), what))
    acc.setdefault("src", set()).update(used)
    ctx.outcome = (prop, sorted(used))
    ctx.notes["shapelets traced to a subset"] = len(shps)
    if est.n_samples != prop:
        raise Violation("n_samples changed from %s to %s" % (prop, est.n_samples))


def seeds_finish(acc, st, kind, n, phase, states, prop):
    if prop is not None and prop < 0.5:
        return                              # too few draws to demand that every series occurs
    if acc.get("src", set()) != set(range(12)):
        raise Violation("with n_samples=%s only series %s are drawn out of 12 over %d random states" % (
            prop, sorted(acc["src"]), states))


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for phase in (False, True):
            tag = "%s%s" % (kind, " phase" if phase else "")
            for prop in ((0.3, 0.5, 0.75) if not t else (0.26, 0.5, 0.75, 0.99)):
                for q, y in enumerate(([0, 1, 0, 1], [0, 0, 0, 0])):
                    out.append(("one %s %s %d" % (tag, prop, q), "draws", dict(
                        kind=kind, lens=[4, 6, 5, 4] if kind in VAR else [4] * 4, y=y, prop=prop, k=1, phase=phase), 100))
            out.append(("two %s" % tag, "draws", dict(
                kind=kind, lens=[3, 4, 3] if kind in VAR else [4] * 3, y=["b", "a", "b"], prop=0.7, k=2, phase=phase), 600))
            for prop in (None, 1.0, 0.2, 0.34, 0.5, 0.67, 0.9, 1.5):
                out.append(("states %s %s" % (tag, prop), "seeds", dict(
                    kind=kind, n=14, phase=phase, states=200 if t else 24, prop=prop), 300))
    return out
