# -*- coding: utf-8 -*-
"""C07: occurrence thresholds come from another series of the same class."""
from .fitlib import *

BOUNDS = {
    "quick": "all draws of fits of 1-2 shapelets on 2-4 series of 4-6 timestamps, every assignment of 4 series to classes, "
             "percentile pairs among 0, 5, 10, 50, 100, thresholds drawn at both ends, 4 kinds x phase x normalised or not; "
             "random_state 0..11 for 40 shapelets on 7 series of 10-30 timestamps; 0..2 for 250 on 40 series in 11 classes",
    "thorough": "5 series, 7 timestamps, random_state 0..79"}
PERC = [[0, 0], [50, 50], [100, 100], [5, 10], [0, 100], [90.5, 97.5]]


def partitions(n):
    """All assignments of n series to classes, up to renaming."""
    out = []

    def rec(p):
        if len(p) == n:
            out.append(list(p))
            return
        for c in range(max(p) + 2 if p else 1):
            rec(p + [c])
    rec([])
    return out


NAMES = ["b", "a", "c", "e", "d"]


def draws(ctx, kind, lens, nch, k, phase, pn, lengths, dil, percs, labels="int", max_channels=None):
    part = ctx.pick(partitions(len(lens)), "classes")
    perc = ctx.pick(percs, "percentiles")
    y = part if labels == "int" else [NAMES[c] for c in part] if labels == "str" else [[2.5, -1.0, 7.0, 0.0, 3.0][c] for c in part]
    D = data(kind, lens, y, nch, salt=70)
    est = fit_draws(ctx, D, FitRNG(ctx, unit=(0.5,), dil=dil, thr=(0.0, 0.4, ALMOST1) if k == 1 else (0.0, ALMOST1)),
                    n_shapelets=k, shapelet_lengths=lengths, phase_invariance=phase, proba_norm=pn, percentiles=perc,
                    max_channels=max_channels)
    shps = unpack(est)
    check_threshold(D, shps, phase, perc, "(%s, phase %s)" % (kind, phase))
    ctx.outcome = repr(shps)
    ctx.notes["thresholds checked"] = len(shps)


def seeds(ctx, kind, n, nch, k, phase, states):
    perc = ctx.pick(PERC, "percentiles")
    seed = ctx.choose(states, "random_state")
    y = [[0, 1, 0, 2, 1, 0, 1], [1, 1, 1, 1, 1, 1, 1], [0, 1, 2, 3, 4, 5, 6], [3, 3, 1, 1, 1, 2, 2]][seed % 4]
    if seed % 3 == 1:
        y = [["z", "a", "m", "k", "c", "b", "f"][c] for c in y]
    D = data(kind, [n, n + 3, n + 1, n, n + 5, n, n + 2], y, nch, salt=n)
    est = fit_seed(D, seed, n_shapelets=k, phase_invariance=phase, proba_norm=(0.0, 0.5, 1.0)[(seed // 3) % 3],
                   shapelet_lengths=[3, 5, n // 2], prime_dilations=bool(seed % 2), percentiles=perc)
    shps = unpack(est)
    check_threshold(D, shps, phase, perc, "(%s, phase %s, n=%d, random_state %d)" % (kind, phase, n, seed))
    ctx.outcome = repr(shps)
    ctx.notes["thresholds checked"] = len(shps)


def many(ctx, kind, phase, states):
    """40 series in 11 classes, two of which have one member"""
    seed = ctx.choose(states, "random_state")
    y = [q % 9 for q in range(38)] + [9, 10]
    D = data(kind, [24 + (7 * i) % 13 for i in range(40)], y, 3, salt=71)
    est = fit_seed(D, seed, n_shapelets=250, phase_invariance=phase, proba_norm=0.5, shapelet_lengths=[3, 7, 12],
                   percentiles=[20, 20 + 30 * (seed % 2)])
    shps = unpack(est)
    check_threshold(D, shps, phase, est.percentiles, "(%s, phase %s, 40 series, random_state %d)" % (kind, phase, seed))
    ctx.outcome = repr(shps)
    ctx.notes["thresholds checked"] = len(shps)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        uni, var = kind in UNI, kind in VAR
        for phase in (False, True):
            for pn in (0.0, 1.0):
                tag = "%s%s%s" % (kind, " phase" if phase else "", " norm" if pn else "")
                lens = ([5, 4, 6, 4] if var else [5] * 4) + ([5] if t else [])
                out.append(("one %s" % tag, "draws", dict(
                    kind=kind, lens=lens, nch=2, k=1, phase=phase, pn=pn, lengths=[3], dil=(0.0, ALMOST1), percs=PERC,
                    labels="int"), 900))
                out.append(("names %s" % tag, "draws", dict(
                    kind=kind, lens=lens[:4], nch=2, k=1, phase=phase, pn=pn, lengths=[3, 2] if not pn else [4],
                    dil=(0.0,), percs=[[50, 50]], labels="str"), 300))
                out.append(("reals %s" % tag, "draws", dict(
                    kind=kind, lens=lens[:4], nch=2, k=1, phase=phase, pn=pn, lengths=[4],
                    dil=(0.0,), percs=[[50, 50]], labels="float"), 300))
                out.append(("two %s" % tag, "draws", dict(
                    kind=kind, lens=[4, 5, 4] if var else [4] * 3, nch=2, k=2, phase=phase, pn=pn, lengths=[3],
                    dil=(0.0,), percs=[[0, 100], [50, 50]], max_channels=None if uni else 1 + t), 600))
            out.append(("many %s%s" % (kind, " phase" if phase else ""), "many", dict(kind=kind, phase=phase, states=20 if t else 3), 200))
            for n in (10, 30):
                out.append(("states %s%s n=%d" % (kind, " phase" if phase else "", n), "seeds", dict(
                    kind=kind, n=n, nch=3, k=40, phase=phase, states=80 if t else 12), 500))
    return out
