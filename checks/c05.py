# -*- coding: utf-8 -*-
"""C05: shapelet lengths and dilations are always admissible."""
from .fitlib import *

BOUNDS = {
    "quick": "length specifications: all absolute lists of <=2 lengths in 2..n+2, all fractions k/20 (and pairs), all integer "
             "bounds 0<=b0<=b1<=n, float bounds on a 1/10 grid, reduction 0, .2, .34, .5, .8, .9; n in 3..12; every length and "
             "dilation draw of the fit, with and without prime dilations, min_len given or not; shortest series anywhere; "
             "random_state 0..7 for 60 shapelets at n=20..120",
    "thorough": "n in 3..24, lists of <=3 lengths, random_state 0..39, n up to 400"}


def _fit(ctx, D, phase, prime, spec, min_len=None, k=1, seed=None, extra=None):
    n = D.n if min_len is None else min(D.n, min_len)
    raw = candidate_lengths(n, **spec)
    kw = {}
    if spec.get("bounds") is None:
        kw["shapelet_lengths"] = spec["shapelet_lengths"]
    else:
        kw["shapelet_lengths_bounds"] = spec["bounds"]
        kw["lengths_bounds_reduction"] = spec.get("reduction", 0.5)
    too_long = any(l > n for l in raw)
    bad = any(l < 2 for l in raw)
    what = "(%s, series lengths %s, min_len %s, %s, prime %s)" % (D.kind, D.lens, min_len, spec, prime)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        try:
            if seed is None:
                rng = ShapeRNG(ctx, unit=(0.0,) if not prime else (0.0, 0.3, 0.55, 0.75, 0.9, ALMOST1),
                               thr=(0.5,))
                est = fit_draws(ctx, D, rng, n_shapelets=k, phase_invariance=phase, prime_dilations=prime,
                                proba_norm=0.0, min_len=min_len, **kw)
            else:
                est = fit_seed(D, seed, n_shapelets=k, phase_invariance=phase, prime_dilations=prime, proba_norm=0.5,
                               min_len=min_len, **kw)
        except ValueError:
            if bad or n < 3:
                ctx.outcome = "rejected"
                ctx.notes["length specifications rejected"] = 1
                return None
            raise
    if bad:
        raise Violation("lengths %s accepted %s" % (raw, what))
    warned = any(issubclass(w.category, UserWarning) for w in log)
    if too_long and not warned:
        raise Violation("a length of %s exceeds %d and no warning was given %s" % (raw, n, what))
    shps = unpack(est)
    lengths = admissible_lengths(n, **spec)
    check_admissible(shps, lengths, n, prime, what)
    ctx.outcome = (repr(spec), [(s.l, s.d) for s in shps])
    ctx.notes["shapelet shapes checked"] = len(shps)
    return shps


def lengths(ctx, kind, ns, phase, prime, family):
    n = ctx.pick(ns, "n")
    var = kind in VAR
    lens = [n, n]
    if var:
        lens = [[n + 3, n], [n, n + 2]][ctx.choose(2, "where the shortest is")]
    D = data(kind, lens, [0, 1], 2)
    min_len = None
    if var:
        min_len = ctx.pick([None, max(3, n - 1), n + 2], "min_len")
    spec = {}
    if family == "list":
        size = 1 + ctx.choose(2, "number of lengths")
        ls = [2 + ctx.choose(n + 1, "length") for _ in range(size)]
        if size == 2 and ls[0] > ls[1]:
            raise Prune()
        spec = dict(shapelet_lengths=ls)
    elif family == "low":
        spec = dict(shapelet_lengths=ctx.pick([[0], [1], [1, 3], [-2], [3, 0]], "lengths"))
    elif family == "fraction":
        fs = [(1 + ctx.choose(22, "fraction")) / 20.0]
        if ctx.bool("two"):
            fs.append(0.55)
        spec = dict(shapelet_lengths=fs)
    elif family == "bounds":
        b0 = ctx.choose(n + 1, "b0")
        b1 = b0 + ctx.choose(n + 1 - b0, "b1")
        spec = dict(bounds=[b0, b1], reduction=ctx.pick([0.0, 0.2, 0.34, 0.5, 0.8, 0.9] if not var else [0.0, 0.34, 0.5, 0.9], "reduction"))
    elif family == "float bounds":
        a = ctx.choose(10, "b0")
        b = a + ctx.choose(11 - a, "b1")
        spec = dict(bounds=[a / 10.0, b / 10.0], reduction=ctx.pick([0.0, 0.3, 0.5, 0.9] if not var else [0.3, 0.5], "reduction"))
    _fit(ctx, D, phase, prime, spec, min_len, k=1, seed=None)


def states(ctx, kind, ns, phase, prime, states):
    n = ctx.pick(ns, "n")
    seed = ctx.choose(states, "random_state")
    lens = [n + 9, n, n + 4] if kind in VAR else [n] * 3
    D = data(kind, lens, [0, 1, 0], 3, salt=n)
    spec = ctx.pick([dict(shapelet_lengths=[0.1, 0.35, 0.81]), dict(bounds=[0.05, 0.5], reduction=0.7),
                     dict(shapelet_lengths=[3]), dict(shapelet_lengths=[2, n // 3, n]),
                     dict(bounds=[5, n // 2], reduction=0.25)], "lengths")
    if min(candidate_lengths(n, **spec)) < 2:
        raise Prune()
    _fit(ctx, D, phase, prime, spec, None, k=60, seed=seed)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for prime in (False, True):
            for phase in (False, True):
                tag = "%s%s%s" % (kind, " phase" if phase else "", " prime" if prime else "")
                ns = list(range(3, 13 if not t else 25))
                if phase and not t:
                    ns = [3, 4, 7]
                for fam in ("list", "fraction", "bounds", "float bounds", "low"):
                    use = ns if fam in ("fraction", "low") else ([3, 5, 9] if kind in VAR else [3, 4, 6, 9, 12]) if not t else ns[::2]
                    if phase and not t:
                        use = [4, 7]
                    out.append(("%s %s" % (fam, tag), "lengths", dict(
                        kind=kind, ns=use, phase=phase, prime=prime, family=fam), 300))
                out.append(("states %s" % tag, "states", dict(
                    kind=kind, ns=[20, 33, 64, 90] + ([257, 400] if t else []), phase=phase, prime=prime,
                    states=40 if t else 8), 400))
    return out
