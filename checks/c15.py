# -*- coding: utf-8 -*-
"""C15: the ridge classifier is exactly transform, train-set scaling and ridge."""
from .compose import *

BOUNDS = {
    "quick": "composition over enumerated feature tables: all labelings of 4 training series in 2-3 classes x 9 label sets x all "
             "combinations of 5 column patterns (constant, noisy constant, two-valued, generic, huge) on 3 columns, 3 further series in "
             "all orders; score of all answers; every option of the classifier alone on the four kinds with the real transformer, all "
             "label sets, n_jobs 1/2/-1; all pairs of options on two kinds; 70 series of 9 classes with 50 shapelets",
    "thorough": "labelings of 5 series in up to 4 classes, pairs of options on all kinds"}

COLS = {
    "const0": ([0.0] * 6, [0.0, 3.0, -1.0]),
    "const": ([0.1] * 6, [0.1, 0.2, 0.5]),
    "two": ([1.0, 0.0, 0.0, 1.0, 1.0, 0.0], [0.0, 1.0, 2.0]),
    "generic": ([0.3, -1.2, 2.2, 0.9, -0.4, 1.7], [0.5, -2.0, 1.1]),
    "large": ([1e6, 1e6 + 2, 1e6 - 1, 1e6 + 5, 1e6, 1e6 + 3], [1e6 + 1, 1e6 + 4, 1e6]),
}


def ridge(**k):
    from convst.classifiers import R_DST_Ridge
    return R_DST_Ridge(**k)


def scaled(F, ref):
    keep = [j for j in range(ref.shape[1]) if not (ref[:, j] == ref[0, j]).all()]
    return (F[:, keep] - ref[:, keep].mean(axis=0)) / ref[:, keep].std(axis=0)


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6)


def expect(d, classes, pred, what, tol=1e-6):
    """The predictions of decision values d (ties within tol are free)."""
    pred = np.asarray(pred)
    if pred.shape != (len(d),):
        raise Violation("%s predictions for %d series %s" % (pred.shape, len(d), what))
    for i in range(len(d)):
        if np.ndim(d[i]) == 0:
            ok = [classes[1]] if d[i] > tol else [classes[0]] if d[i] < -tol else list(classes[:2])
        else:
            ok = [classes[j] for j in range(len(classes)) if d[i][j] >= d[i].max() - tol]
        if not any(type(pred[i].item() if hasattr(pred[i], "item") else pred[i]) ==
                   type(o.item() if hasattr(o, "item") else o) and pred[i] == o for o in ok):
            raise Violation("prediction %r instead of %s for series %d with decision values %s, classes %s %s" % (
                pred[i], ok, i, d[i], list(classes), what))


def reference(Ztr, y, alphas, class_weight, fit_intercept):
    from sklearn.linear_model import RidgeClassifierCV
    with EnvFree():
        return RidgeClassifierCV(alphas=alphas, class_weight=class_weight, fit_intercept=fit_intercept).fit(Ztr, y)


def decide(ref, Z):
    with EnvFree():
        return ref.decision_function(Z)


def check_score(est, X, pred, classes, what):
    n = len(pred)
    for t in itertools.product(range(len(classes)), repeat=n):
        y = classes[list(t)]
        want = float(np.mean([y[i] == pred[i] for i in range(n)]))
        got = est.score(X, y)
        if abs(got - want) > 1e-12:
            raise Violation("score %s instead of %s: predicted %s, truth %s %s" % (got, want, list(pred), list(y), what))


def composition(ctx, n, kmax, labels, first):
    lab = LABELS[labels]
    lg = labelings(n, min(kmax, len(lab)))
    y = lab[list(ctx.pick(lg, "labels"))]
    names = [first] + [ctx.pick(sorted(COLS), "column") for _ in range(2)]
    table = {}
    for i in range(n):
        table[float(i)] = [COLS[c][0][(i + 2 * k) % 6] for k, c in enumerate(names)]
    for i in range(3):
        table[100.0 + i] = [COLS[c][1][(i + k) % 3] for k, c in enumerate(names)]
    feats = lambda X: np.array([table[float(np.asarray(x)[0, 0])] for x in X])
    series = lambda ids: np.array([np.full((1, 5), float(i)) for i in ids])
    Xtr = series(range(n))
    Ftr = feats(Xtr)
    ctx.outcome = (labels, tuple(y.tolist()), tuple(names))
    if (Ftr == Ftr[0]).all():
        raise Prune()
    alphas = [[0.5, 3.0], list(np.logspace(-4, 4, 20))][len(set(names)) % 2]
    with Recorder(fit=lambda e, X, y: None, transform=lambda e, X: feats(X)) as rec:
        est = ridge(alphas_ridge=alphas, n_shapelets=1)
        est.fit(Xtr, y)
        Ztr = scaled(Ftr, Ftr)
        ref = reference(Ztr, y, alphas, None, True)
        if not rec.fits or not same_X(rec.fits[-1][1], Xtr) or not (rec.fits[-1][2] == y).all():
            raise Violation("the transformer was not fitted on the training series and labels")
        m = rec.models()
        if m and not close(m[-1][2], Ztr):
            raise Violation("the linear model was fitted on %s instead of %s" % (m[-1][2].tolist(), Ztr.tolist()))
        for order in itertools.permutations([100, 101, 102]):
            Xt = series(order)
            Z = scaled(feats(Xt), Ftr)
            pred = est.predict(Xt)
            d = rec.decisions(m[-1][1]) if m else []
            if d and not close(d[-1][2], Z):
                raise Violation("the linear model was given %s instead of %s" % (d[-1][2].tolist(), Z.tolist()))
            expect(decide(ref, Z), ref.classes_, pred, "(columns %s, y=%s)" % (names, y.tolist()))
        one = est.predict(series([101]))
        expect(decide(ref, scaled(feats(series([101])), Ftr)), ref.classes_, one, "(alone)")
        check_score(est, Xt, pred, ref.classes_, "(columns %s, y=%s)" % (names, y.tolist()))


# options: name -> (value, transformer parameter or None)
OPTIONS = {
    "none": [], "phase_invariance": [True], "alpha": [0.0, 0.9], "normalize_output": [True], "n_samples": [0.5],
    "n_shapelets": [2, 7], "shapelet_lengths": [[3], [0.4]], "shapelet_lengths_bounds": [[3, 5]],
    "lengths_bounds_reduction": [0.9], "prime_dilations": [True], "proba_norm": [0.0, 1.0], "percentiles": [[0, 90]],
    "random_state": [11], "min_len": [5], "class_weight": ["balanced", "custom"], "fit_intercept": [False],
    "alphas_ridge": [[50.0], [1, 10]], "n_jobs": [2, -1, None], "transform_type": ["same"],
}
LINEAR = {"class_weight": "class_weight", "fit_intercept": "fit_intercept", "alphas_ridge": "alphas"}


def opts(names, values, kind, lab):
    out = {}
    for k, v in zip(names, values):
        if v == "same":
            v = kind
        if v == "custom":
            v = {c: 1.0 + 2.5 * i for i, c in enumerate(lab.tolist())}
        if k == "lengths_bounds_reduction":
            out["shapelet_lengths_bounds"] = [3, 7]
        out[k] = v
    return out


def real(ctx, kind, names, labels, big=False):
    lab = LABELS[labels]
    values = [ctx.pick(OPTIONS[k], k) for k in names if OPTIONS[k]]
    k = min(3, len(lab))
    y = lab[[0, 1, k - 1, 0, 1, 0, k - 1, 0]]
    o = opts([k for k in names if OPTIONS[k]], values, kind, lab)
    D = data(kind, [9, 10, 8, 11, 9, 12, 8, 9], y.tolist(), 2, salt=1500)
    T = data(kind, [10, 8, 11, 9] if kind in VAR else [9] * 4, [0] * 4, 2, salt=1501)
    params = dict(dict(n_shapelets=4, random_state=3), **o)
    if big:
        lab = np.array(["k%d" % (5 * i % 9) for i in range(9)])
        y = lab[[(i * i + i // 3) % 9 for i in range(70)]]
        D = data(kind, [24 + (i * 5) % 9 for i in range(70)], y.tolist(), 5, salt=1502)
        T = data(kind, [33 - i % 9 for i in range(40)] if kind in VAR else [24] * 40, [0] * 40, 5, salt=1503)
        params.update(n_shapelets=50, shapelet_lengths=[3, 7], random_state=ctx.choose(2, "seed"))
    keep = repr(sorted(params.items()))
    with Recorder() as rec:
        est = ridge(**params)
        est.fit(D.X, y)
        what = "(%s, %s, labels %s)" % (kind, o, lab.tolist())
        if repr(sorted(params.items())) != keep:
            raise Violation("parameters modified %s" % what)
        inst, Xf, yf, got = rec.fits[-1]
        if not same_X(Xf, D.X) or not (yf == y).all():
            raise Violation("the transformer was not fitted on the training series and labels %s" % what)
        want = {k: v for k, v in params.items() if k not in LINEAR and k != "n_jobs"}
        for k, v in want.items():
            g = got[k]
            if not (g is v or repr(np.asarray(g).tolist()) == repr(np.asarray(v).tolist())):
                raise Violation("option %s=%r reached the transformer as %r %s" % (k, v, g, what))
        Ftr, Ft = inst.transform(D.X), inst.transform(T.X)
        Ztr = scaled(Ftr, Ftr)
        alphas = params.get("alphas_ridge", list(np.logspace(-4, 4, 20)))
        ref = reference(Ztr, y, alphas, params.get("class_weight"), params.get("fit_intercept", True))
        m = rec.models()[-1:]
        if m:
            if not close(m[0][2], Ztr) or not (m[0][3] == y).all():
                raise Violation("the linear model was not fitted on the scaled features and labels %s" % what)
            if abs(m[0][1].alpha_ - ref.alpha_) > 1e-12 or not close(m[0][1].coef_, ref.coef_) or \
                    not np.allclose(m[0][1].intercept_, ref.intercept_, atol=1e-6):
                raise Violation("linear model (alpha %s, coef %s, intercept %s) instead of (%s, %s, %s) %s" % (
                    m[0][1].alpha_, m[0][1].coef_.tolist(), m[0][1].intercept_, ref.alpha_, ref.coef_.tolist(),
                    ref.intercept_, what))
        for X, F in ((T.X, Ft), (D.X, Ftr), (T.X[1:2], Ft[1:2])):
            d = decide(ref, scaled(F, Ftr))
            pred = est.predict(X)
            expect(d, ref.classes_, pred, what)
            got = est.score(X, np.resize(y, len(X)))
            exp = float(np.mean(np.asarray(pred) == np.resize(y, len(X))))
            if abs(got - exp) > 1e-12:
                raise Violation("score %s instead of %s %s" % (got, exp, what))
        # the option matters here: the reference differs from the one without it
        ctx.outcome = (kind, labels, tuple(names), repr(values), Ftr.tobytes(), np.round(decide(ref, scaled(Ft, Ftr)), 6).tobytes())


def jobs(tier):
    q = tier == "quick"
    out = []
    for lb in LABELS:
        for c in sorted(COLS):
            out.append(("composition %s %s" % (lb, c), "composition", dict(n=4 if q else 5, kmax=3 if q else 4, labels=lb, first=c), 4))
    lbs = list(LABELS)
    for kind in KINDS:
        for i, o in enumerate(sorted(OPTIONS)):
            out.append(("option %s %s" % (kind, o), "real", dict(kind=kind, names=[o], labels=lbs[i % len(lbs)]), 3))
        out.append(("large %s" % kind, "real", dict(kind=kind, names=["none"], labels="range", big=True), 5))
        for lb in LABELS:
            out.append(("labels %s %s" % (kind, lb), "real", dict(kind=kind, names=["none"], labels=lb), 1))
        if not q or kind in ("univariate", "multivariate_variable"):
            for a, b in itertools.combinations([o for o in sorted(OPTIONS) if OPTIONS[o]], 2):
                if set((a, b)) == {"lengths_bounds_reduction", "shapelet_lengths_bounds"}:
                    continue
                out.append(("options %s %s %s" % (kind, a, b), "real", dict(kind=kind, names=[a, b], labels=lbs[len(out) % len(lbs)]), 3))
    return out
