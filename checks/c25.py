# -*- coding: utf-8 -*-
"""C25: output normalisation rescales positions and counts by series length."""
from .compose import *

BOUNDS = {
    "quick": "R_DST: four kinds x phase invariance x fixed shapelet mixes, all batches of up to 3 series (variable length: all ordered "
             "length pairs in 4-14, triples in 4-8; same length: all lengths 4-16); fit with and without the option; switching the option after fit; R_DST_Ridge and "
             "R_DST_Ensemble (3 and 2 members with transforms that change the length) on the four kinds with and without subsampling, features "
             "reaching the linear model recorded",
    "thorough": "lengths up to 24 (pairs), 12 (triples)"}


def check_norm(raw, norm, lens, what):
    raw, norm = np.asarray(raw, dtype=float), np.asarray(norm, dtype=float)
    if raw.shape != norm.shape or raw.shape[1] % 3:
        raise Violation("shapes %s and %s %s" % (raw.shape, norm.shape, what))
    for i, n in enumerate(lens):
        for c in range(raw.shape[1]):
            want = raw[i, c] if c % 3 == 0 else raw[i, c] / n
            if not abs(norm[i, c] - want) <= 1e-9 * (1 + abs(want)):
                raise Violation("%s of shapelet %d on series %d (length %d): %s with normalised output, %s without %s" % (
                    ("minimum", "position", "count")[c % 3], c // 3, i, n, norm[i, c], raw[i, c], what))


def mix(kind, n):
    """Shapelets of several shapes with thresholds that some windows reach"""
    out = []
    nch = 1 if kind in UNI else 2
    for i, (l, d) in enumerate([(2, 1), (3, 1), (2, 2), (2, 3), (3, 1)]):
        if (l - 1) * d < n:
            ch = [0] if nch == 1 else [[0], [1], [0, 1]][i % 3]
            out.append(Shp(gen(len(ch), l, salt=2500 + i), d, [1.0, 4.0, 2.5, 100.0, 0.0][i], i % 2 == 1, ch))
    return out


def batches(ctx, kind, phase, size, lo, hi):
    nch = 1 if kind in UNI else 2
    if kind in VAR:
        lens = [lo + ctx.choose(hi - lo + 1, "length") for _ in range(size)]
    else:
        lens = [lo + ctx.choose(hi - lo + 1, "length")] * size
    shps = mix(kind, min(lens))
    X = as_kind(kind, [gen(nch, n, salt=2520 + 7 * i + n) for i, n in enumerate(lens)])
    out = []
    for flag in (False, True):
        est = with_shapelets(kind, shps, phase, normalize_output=flag)
        out.append(np.array(transform(est, X, size, len(shps))))
    for i in range(size):
        for j, s in enumerate(shps):
            x = np.asarray(X[i], dtype=float)
            check_triple(out[0][i, 3 * j:3 * j + 3], s, x, phase, False, "without the option")
    check_norm(out[0], out[1], lens, "(%s, phase %s, lengths %s)" % (kind, phase, lens))
    again = with_shapelets(kind, shps, phase, normalize_output=True).transform(X)
    if not np.array_equal(again, out[1]):
        raise Violation("transforming again with normalised output gives other features")
    ctx.outcome = (kind, phase, tuple(lens), out[1].tobytes())


def fitted(ctx, kind, phase):
    """The option of a fitted transformer, also when it is switched by set_params after fit"""
    D = data(kind, [8, 10, 7, 9], [0, 1, 0, 1], 2, salt=2560)
    o = dict(n_shapelets=6, shapelet_lengths=[3, 11], random_state=5, phase_invariance=phase, transform_type=ctx.pick(["auto", kind]))
    if ctx.bool("subsample"):
        o["n_samples"] = 0.5
    a = R_DST(normalize_output=False, **o).fit(D.X, D.y)
    b = R_DST(normalize_output=True, **o).fit(D.X, D.y)
    if not same_shapelets(a.shapelets_, b.shapelets_):
        raise Violation("the shapelets depend on normalize_output")
    T = data(kind, [12, 8, 9], [0] * 3, 2, salt=2561)
    for E in (D, T):
        raw, norm = np.array(a.transform(E.X)), np.array(b.transform(E.X))
        check_norm(raw, norm, E.lens, "(fitted, %s)" % o)

    b.set_params(normalize_output=False)
    a.set_params(normalize_output=True)
    check_norm(np.array(b.transform(T.X)), np.array(a.transform(T.X)), T.lens, "(option switched after fit)")
    ctx.outcome = (kind, phase, norm.tobytes())


def classifier(ctx, kind, model):
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram
    D = data(kind, [11, 10, 12, 11, 10, 12], [0, 1, 2, 0, 1, 2], 2, salt=2570)
    T = data(kind, [10, 12, 11] if kind in VAR else [11] * 3, [0] * 3, 2, salt=2571)
    o = dict(shapelet_lengths=[3, 5], random_state=6, phase_invariance=ctx.bool("phase"))
    if ctx.bool("subsample"):
        o["n_samples"] = 0.7
    tr = {"ridge": [Raw()], "ensemble": [Raw(), Derivate(), Periodigram()], "ensemble2": [Derivate(order=2), Raw()]}[model]
    seen = []
    for flag in (False, True):
        with Recorder() as rec:
            if model == "ridge":
                from convst.classifiers import R_DST_Ridge
                est = R_DST_Ridge(n_shapelets=5, normalize_output=flag, **o)
            else:
                from convst.classifiers import R_DST_Ensemble
                est = R_DST_Ensemble(n_shapelets_per_estimator=4, normalize_output=flag, n_jobs=2,
                                     input_transformers=None if model == "ensemble" else tr, proba_norm=[0.5] * len(tr), **o)
            est.fit(D.X, D.y)
            k = len(rec.transforms)
            est.predict(T.X)
            seen.append((rec.fits, rec.transforms[:k], rec.transforms[k:], rec.models()))
    (fa, ta, pa, ma), (fb, tb, pb, mb) = seen
    if not len(ta) == len(tb) == len(fa) == len(fb) == len(ma) == len(mb) == len(tr) or len(pa) != len(pb):
        raise Violation("different numbers of components with and without normalised output: %s" % [len(z) for z in (ta, tb, fa, fb, ma, mb)])
    for i, t in enumerate(tr):
        for E, u, v in ((D, ta[i], tb[i]), (T, pa[i], pb[i])):
            lens = [len(np.asarray(x)[0]) for x in t.fit(E.X).transform(E.X)]
            check_norm(u[2], v[2], lens, "(%s, %s, member %d, %s)" % (kind, model, i, o))
        F = tb[i][2]
        const = (F == F[0]).all(axis=0)
        Z = (F - F.mean(axis=0)) / np.where(const, 1.0, F.std(axis=0))
        if model == "ridge":
            Z = Z[:, ~const]
        if Z.shape != mb[i][2].shape or not np.allclose(Z, mb[i][2], atol=1e-6):
            raise Violation("the linear model %d is not fitted on the normalised output (%s, %s)" % (i, kind, model))
    ctx.outcome = (kind, model, tb[0][2].tobytes())


def jobs(tier):
    q = tier == "quick"
    out = []
    for kind in KINDS:
        for phase in (False, True):
            for size in (1, 2, 3):
                if kind in VAR:
                    hi = (0, 14, 14, 8)[size] if q else (0, 24, 24, 12)[size]
                else:
                    hi = 16 if q else 24
                out.append(("batch %s phase=%s size=%d" % (kind, phase, size), "batches",
                            dict(kind=kind, phase=phase, size=size, lo=4, hi=hi), size * 4))
            out.append(("fitted %s phase=%s" % (kind, phase), "fitted", dict(kind=kind, phase=phase), 3))
        for m in ("ridge", "ensemble", "ensemble2"):
            out.append(("classifier %s %s" % (kind, m), "classifier", dict(kind=kind, model=m), 3))
    return out
