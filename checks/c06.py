# -*- coding: utf-8 -*-
"""C06: alpha similarity bounds the overlap of sampled shapelets."""
from .fitlib import *

BOUNDS = {
    "quick": "all draws of fits of 2-4 shapelets of one or two lengths on 1-2 series of 5-9 timestamps (1-3 channels), alpha "
             "0, .2, .5, .75, 1, normalised, not, or drawn, 4 kinds, phase or not; random_state 0..11 with 60 shapelets on "
             "5 series of 12-30 timestamps",
    "thorough": "as quick with one more shapelet or timestamp, alpha on a 1/10 grid, random_state 0..79"}
ALPHAS = [0.0, 0.25, 0.5, 0.75, 1.0]


def draws(ctx, kind, lens, nch, k, phase, alphas, pn, lengths, dil, max_channels=None):
    alpha = ctx.pick(alphas, "alpha")
    D = data(kind, lens, list(range(len(lens))), nch, salt=60)
    unit = (0.0, ALMOST1) if 0 < pn < 1 else (0.5,)
    est = fit_draws(ctx, D, FitRNG(ctx, unit=unit, dil=dil, thr=(0.5,)), n_shapelets=k, shapelet_lengths=lengths,
                    phase_invariance=phase, proba_norm=pn, max_channels=max_channels, alpha=alpha)
    shps = unpack(est)
    check_overlap(D, shps, k, phase, alpha, [l for l in lengths], "(%s, phase %s, series lengths %s)" % (kind, phase, D.lens))
    ctx.outcome = (alpha, repr(shps))
    ctx.notes["shapelets dropped"] = k - len(shps)
    ctx.notes["shapelet pairs compared"] = len(shps) * (len(shps) - 1) // 2


def seeds(ctx, kind, n, nch, k, phase, states, alphas):
    alpha = ctx.pick(alphas, "alpha")
    seed = ctx.choose(states, "random_state")
    D = data(kind, [n, n + 3, n + 1, n, n + 5], [0, 1, 0, 1, 0], nch, salt=n)
    ls = [[4], [3, 5, 8], [n // 2]][seed % 3]
    est = fit_seed(D, seed, n_shapelets=k, phase_invariance=phase, proba_norm=(0.0, 0.5, 1.0)[(seed // 3) % 3],
                   alpha=alpha, shapelet_lengths=ls, prime_dilations=bool(seed % 2))
    shps = unpack(est)
    check_overlap(D, shps, k, phase, alpha, ls, "(%s, phase %s, n=%d, random_state %d)" % (kind, phase, n, seed))
    ctx.outcome = repr(shps)
    ctx.notes["shapelets dropped"] = k - len(shps)
    ctx.notes["shapelet pairs compared"] = len(shps) * (len(shps) - 1) // 2


def jobs(tier):
    t = tier == "thorough"
    alphas = ALPHAS if not t else [0.0, 0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.8, 0.9, 1.0]
    out = []
    for kind in KINDS:
        uni, var = kind in UNI, kind in VAR
        for phase in (False, True):
            tag = "%s%s" % (kind, " phase" if phase else "")
            n = 7 + t
            if uni:
                out.append(("three %s" % tag, "draws", dict(
                    kind=kind, lens=[n], nch=1, k=3, phase=phase, alphas=alphas, pn=0.0, lengths=[3], dil=(0.0, ALMOST1)), 1000))
                out.append(("four %s" % tag, "draws", dict(
                    kind=kind, lens=[6], nch=1, k=4, phase=phase, alphas=alphas, pn=1.0, lengths=[4], dil=(0.0,)), 1500))
                out.append(("mixed %s" % tag, "draws", dict(
                    kind=kind, lens=[6 + t, 5], nch=1, k=2, phase=phase, alphas=alphas, pn=0.5, lengths=[3, 5],
                    dil=(0.0, ALMOST1)), 1000))
                out.append(("two series %s" % tag, "draws", dict(
                    kind=kind, lens=[5, 7] if var else [6, 6], nch=1, k=2, phase=phase, alphas=alphas, pn=0.0, lengths=[4],
                    dil=(0.0, 0.7)), 800))
            else:
                out.append(("two %s" % tag, "draws", dict(
                    kind=kind, lens=[n - 2], nch=2, k=2, phase=phase, alphas=alphas, pn=0.0, lengths=[3], dil=(0.0, ALMOST1)),
                    1000))
                out.append(("two, three channels %s" % tag, "draws", dict(
                    kind=kind, lens=[4], nch=3, k=2, phase=phase, alphas=alphas, pn=0.0, lengths=[3], dil=(0.0,)), 1500))
                out.append(("three, one channel each %s" % tag, "draws", dict(
                    kind=kind, lens=[5], nch=2, k=3, phase=phase, alphas=alphas, pn=1.0, lengths=[4 - phase],
                    dil=(0.0,), max_channels=1), 1500))
                out.append(("mixed %s" % tag, "draws", dict(
                    kind=kind, lens=[5, 4], nch=2, k=2, phase=phase, alphas=alphas[1:-1], pn=0.0, lengths=[3, 4],
                    dil=(0.0,), max_channels=1), 1000))
            for n in (12, 30):
                out.append(("states %s n=%d" % (tag, n), "seeds", dict(
                    kind=kind, n=n, nch=3, k=60, phase=phase, states=80 if t else 12, alphas=ALPHAS), 500))
    return out
