# -*- coding: utf-8 -*-
"""C04: every fitted shapelet is a real dilated subsequence of the training data."""
from .fitlib import *

BOUNDS = {
    "quick": "all random draws (lengths, dilations, flags, channels, samples, starts, thresholds at both ends) of fits of 1 "
             "shapelet on 3 series of 5-7 timestamps, and of 2 shapelets on 2 series of 4-5; data with "
             "isolated zeros, with repeated series (thresholds of 0) and with offsets of 1e6 and -3e7; random_state 0..11 for 40 "
             "shapelets on 6 series of 9-40 timestamps (0..2 for 130 on 260 timestamps and 12 channels, 60 on 300 channels); 4 kinds x phase x prime x normalisation 0, 0.5, 1",
    "thorough": "1 shapelet on 3 series of 6-9 timestamps, 2 on 2 series of 5-6, 3 on 2 of 4-5; random_state 0..99"}


def draws(ctx, kind, lens, y, nch, k, phase, prime, pn, lengths, max_channels=None, unit=(0.0, ALMOST1), dil="dense",
          percentiles=(5, 10), **form):
    D = data(kind, lens, y, nch, **form)
    est = fit_draws(ctx, D, FitRNG(ctx, unit=unit, dil=dil, thr=(0.5,)), n_shapelets=k, shapelet_lengths=lengths, phase_invariance=phase,
                    prime_dilations=prime, proba_norm=pn, max_channels=max_channels, alpha=0.5, percentiles=list(percentiles))
    shps = check_sources(D, est, k, phase, pn, "(%s, phase %s, prime %s)" % (kind, phase, prime))
    if max_channels is not None and any(len(s.channels) > max_channels for s in shps):
        raise Violation("more channels than max_channels=%d: %s" % (max_channels, shps))
    if k == 1 and len(shps) != 1:
        raise Violation("no shapelet although no window is all zero")
    ctx.outcome = repr(shps)
    ctx.notes["shapelets located in the training data"] = len(shps)


def seeds(ctx, kind, n, nch, k, phase, states, **form):
    seed = ctx.choose(states, "random_state")
    pn = (0.0, 0.5, 1.0)[seed % 3]
    prime = bool((seed // 3) % 2)
    lens = [n, n + 3, n, n + 1, n + 7, n + 2]
    D = data(kind, lens, ["a", "b", "a", "c", "b", "a"], nch, salt=n, scale=3.0, **form)
    spec = dict(shapelet_lengths=[3, 5, n // 2, n]) if seed % 2 else dict(shapelet_lengths_bounds=[0.2, 0.8])
    est = fit_seed(D, seed, n_shapelets=k, phase_invariance=phase, prime_dilations=prime, proba_norm=pn,
                   alpha=(0.1, 0.5, 0.9)[(seed // 2) % 3], **spec)
    shps = check_sources(D, est, k, phase, pn, "(%s, phase %s, n=%d, random_state %d)" % (kind, phase, n, seed))
    ctx.outcome = repr(shps)
    ctx.notes["shapelets located in the training data"] = len(shps)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        uni = kind in UNI
        var = kind in VAR
        for phase in (False, True):
            for prime in (False, True):
                tag = "%s%s%s" % (kind, " phase" if phase else "", " prime" if prime else "")
                for pn in (0.0, 0.5, 1.0):
                    lens = ([7, 5, 6] if var else [6] * 3) if not t else ([9, 6, 8] if var else [8] * 3)
                    if not uni:
                        lens = [n - 1 for n in lens]
                    out.append(("one %s norm=%s" % (tag, pn), "draws", dict(
                        kind=kind, lens=lens, y=[0, 0, 1], nch=2 if not t else 3, k=1, phase=phase, prime=prime, pn=pn,
                        lengths=[2, 3, 5] if not t else [2, 3, 4, 6],
                        unit=tuple(GRID) if prime else (0.0, ALMOST1)), 200 if uni else 900))
                lens = ([5, 4] if var else [4] * 2) if not t else ([6, 5] if var else [5] * 2)
                out.append(("two %s" % tag, "draws", dict(
                    kind=kind, lens=lens, y=[0, 1], nch=2, k=2, phase=phase, prime=prime, pn=0.5,
                    lengths=[3] if not uni else [2, 3], dil=(0.0, 0.7, ALMOST1)), 1500))
                if t:
                    out.append(("three %s" % tag, "draws", dict(
                        kind=kind, lens=[5, 4] if var else [4] * 2, y=[0, 1], nch=1 if uni else 2, k=3, phase=phase,
                        prime=prime, pn=0.5, lengths=[3], dil=(0.0, ALMOST1), max_channels=None if uni else 1), 4000))
            tag = "%s%s" % (kind, " phase" if phase else "")
            for pn in (0.0, 1.0):
                lens = [6, 5, 6, 5] if var else [5] * 4
                out.append(("zeros %s norm=%s" % (tag, pn), "draws", dict(
                    kind=kind, lens=lens[:2], y=[0, 1], nch=2, k=1, phase=phase, prime=False, pn=pn, lengths=[2, 3], zeros=True),
                    100))
                out.append(("twins %s norm=%s" % (tag, pn), "draws", dict(
                    kind=kind, lens=lens, y=[0, 1, 0, 1], nch=2, k=1, phase=phase, prime=False, pn=pn, lengths=[3], twin=True,
                    percentiles=(0, 0)), 100))
            for offset in (1e6, -3e7):
                out.append(("offset %s %g" % (tag, offset), "seeds", dict(
                    kind=kind, n=12, nch=2, k=20, phase=phase, states=24 if t else 6, offset=offset), 100))
            out.append(("large %s" % tag, "seeds", dict(kind=kind, n=260, nch=12, k=130, phase=phase, states=12 if t else 3), 100))
            for n in (9, 16, 40):
                out.append(("states %s%s n=%d" % (kind, " phase" if phase else "", n), "seeds", dict(
                    kind=kind, n=n, nch=4, k=40, phase=phase, states=100 if t else 12), 300))
        if not uni:
            for n, nch in ((6, 300), (7, 70000)) if t else ((6, 300),):
                out.append(("channels %s %d" % (kind, nch), "seeds", dict(
                    kind=kind, n=n, nch=nch, k=60, phase=False, states=2), 100))
            for mc in (1, 2):
                out.append(("max_channels %s %d" % (kind, mc), "draws", dict(
                    kind=kind, lens=[5, 5], y=[0, 1], nch=3, k=1, phase=False, prime=False, pn=0.5, lengths=[3],
                    max_channels=mc), 300))
    return out
