# -*- coding: utf-8 -*-
"""C30: estimators can be used from several threads at once."""
from mc.tasks import Runner

from .fitlib import *

BOUNDS = {
    "quick": "2 threads applying one fitted estimator to different batches, or fitting one estimator each, for the 4 kinds of data and 3 sets of options "
             "(phase invariance, normalised output, padding, subsampling), every line of the estimators and input transformers a scheduling point "
             "(for most pairs with an ensemble: every line of the classifiers), all schedules with at most 1 preemption (2 for the application of "
             "R_DST on same-length data); every line of the compiled functions with at most 1 preemption on small data; 3 threads with at most 1 preemption",
    "thorough": "every line of all modules, all pairs; at most 2 preemptions, 3 for the application of R_DST, 2 with 3 threads for R_DST"}

PYTHON = ("rdst.py", "rdst_ridge.py", "rdst_ensemble.py", "_input_transformers.py", "checks_utils.py")
KERNELS = ("_commons.py", "_univariate_same_length.py", "_univariate_variable_length.py", "_multivariate_same_length.py",
           "_multivariate_variable_length.py")
ENSEMBLE = ("rdst_ensemble.py", "rdst_ridge.py", "_input_transformers.py")
OPTS = [dict(shapelet_lengths=[3]), dict(shapelet_lengths=[0.4], normalize_output=True, phase_invariance=True),
        dict(shapelet_lengths_bounds=[3, 4], normalize_output=True, n_samples=0.75, min_len=6)]


def make(model, opts, seed=4, k=3):
    o = dict(OPTS[opts])
    o["random_state"] = seed
    if model == "rdst":
        return R_DST(n_shapelets=k, **o)
    if model == "ridge":
        from convst.classifiers import R_DST_Ridge
        return R_DST_Ridge(n_shapelets=k, **o)
    from convst.classifiers import R_DST_Ensemble
    from convst.transformers._input_transformers import Derivate, Periodigram, Raw
    its = [Derivate(), Raw()] if opts != 1 else [Raw(), Periodigram()]
    if opts == 1:
        o["shapelet_lengths"] = [3]
    return R_DST_Ensemble(n_shapelets_per_estimator=k, n_jobs=2, input_transformers=its, proba_norm=[0.5, 0.9], **o)


def train(kind, i=0, n=9, m=4):
    return data(kind, [n, n + 2, n + 1, n][:m], [[0, 1, 0, 1], ["b", "a", "b", "a"]][i][:m], 2, salt=3000 + i)


def others(kind, n=9):
    """Batches of different sizes and lengths, the first and the last of the same shape"""
    return [data(kind, [n + 4, n + 1, n + 3] if kind in VAR else [n + 1] * 3, [0] * 3, 2, salt=3010).X,
            data(kind, [n, n + 5] if kind in VAR else [n + 3] * 2, [0] * 2, 2, salt=3011).X,
            data(kind, [n + 2], [0], 2, salt=3012).X,
            data(kind, [n + 3, n + 4, n + 2] if kind in VAR else [n + 1] * 3, [0] * 3, 2, salt=3013).X]


def result(model, est, X):
    if model == "rdst":
        return digest(np.array(est.transform(X)))
    saved, rt.ridge_log = rt.ridge_log, None
    p = digest(np.asarray(est.predict(X)))
    rt.ridge_log = saved
    return p


def state(model, est):
    if model == "rdst":
        return digest(freeze(est.shapelets_))
    if model == "ridge":
        return digest(freeze(est.transformer.shapelets_))
    return digest([freeze(m.steps[1][1].shapelets_) for m in est.models]), digest(np.array(est.model_weights, dtype=float))


_serial = {}


def together(ctx, tasks, bound, files):
    rt.rng = rt.ThreadRNG()
    run = Runner(ctx, bound=bound, workers=len(tasks), files=files)
    try:
        out = run([(t, (), {}) for t in tasks], len(tasks))
    finally:
        rt.rng = None
    ctx.notes["scheduling points"] = run.points
    ctx.notes["preemptions"] = run.preemptions
    return out


def applying(ctx, model, kind, opts, bound, threads=2, kernels=False, files=PYTHON, nbatches=4):
    n, k = (6, 1) if kernels else (9, 3)
    key = (model, kind, opts, n)
    if key not in _serial:
        D = train(kind, 0, n)
        est = make(model, opts, k=k).fit(D.X, D.y)
        Xs = others(kind, n)[1:3] + [D.X] if kernels else others(kind, n)
        _serial[key] = est, Xs, [result(model, est, X) for X in Xs], state(model, est)
    est, Xs, want, before = _serial[key]
    which = [i % len(Xs) for i in range(threads)] if threads > 2 or kernels else [
        (0, 3), (0, 1), (1, 2), (2, 2)][ctx.choose(nbatches, "batches") if bound < 2 else 0]
    got = together(ctx, [lambda i=i: result(model, est, Xs[i]) for i in which], bound, KERNELS if kernels else files)
    for i, g in zip(which, got):
        if g != want[i]:
            raise Violation("%s on batch %d at the same time as on %s gives another result than alone (%s, %s)" % (
                "transform" if model == "rdst" else "predict", i, [w for w in which], kind, OPTS[opts]))
    if state(model, est) != before:
        raise Violation("concurrent use changed the fitted model (%s, %s)" % (model, kind))
    ctx.outcome = (model, kind, opts, tuple(which), tuple(ctx.path[:3]))


def fitting(ctx, models, kind, opts, bound, kernels=False, files=PYTHON):
    """Two estimators fitted at the same time, with the same or different random_state"""
    n, k = (6, 1) if kernels else (9, 2) if "ensemble" not in models else (7, 1)
    pair = ctx.choose(2, "seeds") if models == ("rdst", "rdst") and not kernels else 0
    seeds = (4, 4) if pair else (4, 9)
    Ds = [train(kind, i, n, 3 if kernels else 4) for i in (0, 1)]
    X = others(kind, n)[2 if kernels else 0]

    def fit(i):
        est = make(models[i], opts, seeds[i], k).fit(Ds[i].X, Ds[i].y)
        return state(models[i], est), result(models[i], est, X)
    want = []
    for i in (0, 1):
        key = (models[i], kind, opts, seeds[i], i, n, "fit")
        if key not in _serial:
            rt.rng = rt.ThreadRNG()
            _serial[key] = fit(i)
            rt.rng = None
        want.append(_serial[key])
    got = together(ctx, [lambda: fit(0), lambda: fit(1)], bound, KERNELS if kernels else files)
    for i in (0, 1):
        if got[i] != want[i]:
            raise Violation("fitting %s while another thread fits %s gives another model than alone (%s, %s, random_state %s)" % (
                models[i], models[1 - i], kind, OPTS[opts], seeds))
    ctx.outcome = (models, kind, opts, seeds, tuple(ctx.path[:3]))


def jobs(tier):
    t = tier == "thorough"
    out = []
    for i, kind in enumerate(KINDS):
        for opts in range(3):
            for model in ("rdst", "ridge", "ensemble"):
                b = (3 if model == "rdst" else 2) if t else 1
                out.append(("apply %s %s options %d" % (model, kind, opts), "applying",
                            dict(model=model, kind=kind, opts=opts, bound=b, nbatches=4 if t or model == "rdst" else 2,
                                 files=PYTHON if t or model != "ensemble" or opts == i % 3 else ENSEMBLE), 100))
            if not t and opts == i % 3 and kind not in VAR:
                out.append(("apply rdst %s twice preempted" % kind, "applying",
                            dict(model="rdst", kind=kind, opts=opts, bound=2), 1000))
        for model in ("rdst", "ridge", "ensemble"):
            out.append(("three threads %s %s" % (model, kind), "applying",
                        dict(model=model, kind=kind, opts=(i + 1) % 3, bound=2 if t and model == "rdst" else 1, threads=3,
                             files=PYTHON if t or model != "ensemble" else ("rdst_ensemble.py",)), 300))
        out.append(("kernels apply %s" % kind, "applying",
                    dict(model="rdst", kind=kind, opts=1, bound=1, kernels=True), 500))
        out.append(("kernels fit %s" % kind, "fitting",
                    dict(models=("rdst", "rdst"), kind=kind, opts=0 if kind in VAR else i % 3, bound=1, kernels=True), 600))
        for models in (("rdst", "rdst"), ("ridge", "rdst"), ("ensemble", "ridge"), ("ensemble", "ensemble")):
            if not t and models[0] == "ensemble" and (i + len(models[1])) % 2:
                continue
            out.append(("fit %s %s and %s" % (kind, models[0], models[1]), "fitting",
                        dict(models=models, kind=kind, opts=(i + 1) % 3, bound=2 if t and models == ("rdst", "rdst") else 1,
                             files=PYTHON if t or models[0] != "ensemble" else ("rdst_ensemble.py",) + (() if models[1] == models[0] else ("rdst_ridge.py",))), 400))
    return out
