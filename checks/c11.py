# -*- coding: utf-8 -*-
"""C11: user data is never modified."""
import copy

from .fitlib import *

BOUNDS = {
    "quick": "all sequences of 2 operations (3 for the transformer) among fit, refit, fit_transform, transform of 3 data sets, "
             "predict, score, writing into an earlier result, writing into the training data; 3 estimators and 5 input "
             "transformers; containers: float64, float32, int64 3D arrays (C and Fortran order, views), lists, object arrays; "
             "options (lists or arrays) incl. padding, subsampling, normalised output, too long lengths, a single window as long as the series",
    "thorough": "sequences of 3 (4) operations"}


def forms(kind):
    return ["list", "object", "int list"] if kind in VAR else ["float64", "float32", "int64", "fortran", "view"]


def build(kind, form, salt, n=5, m=4, nch=None):
    nch = 1 if kind in UNI else 2
    lens = [n + (0, 2, 1, 0)[i % 4] if kind in VAR else n for i in range(m)]
    s = [gen(nch, l, salt=1100 + salt * 10 + i) * 7 for i, l in enumerate(lens)]
    if form == "int64":
        return np.array(s).astype(np.int64)
    if form == "float32":
        return np.array(s).astype(np.float32)
    if form == "fortran":
        return np.asfortranarray(np.array(s))
    if form == "view":
        big = np.zeros((m, nch, 2 * n))
        big[:, :, ::2] = np.array(s)
        return big[:, :, ::2]
    if form == "float64":
        return np.array(s)
    if form == "int list":
        return [a.astype(np.int64) for a in s]
    if form == "object":
        o = np.empty(m, dtype=object)
        for i in range(m):
            o[i] = s[i]
        return o
    return s


OPTS = [dict(shapelet_lengths=[3, 30]), dict(n_samples=0.5, normalize_output=True, shapelet_lengths=[0.5]),
        dict(shapelet_lengths_bounds=[3, 5], prime_dilations=True, phase_invariance=True, percentiles=[0, 50]),
        dict(shapelet_lengths=[1.0, 0.6], proba_norm=1.0),
        dict(shapelet_lengths=np.array([3, 30]), percentiles=np.array([90.0, 95.0]), max_channels=9)]


def make(model, opts):
    o = {k: (list(v) if isinstance(v, list) else v.copy() if isinstance(v, np.ndarray) else v) for k, v in opts.items()}
    if model == "rdst":
        return R_DST(n_shapelets=5, random_state=2, **o), o
    if model == "ridge":
        from convst.classifiers import R_DST_Ridge
        o["alphas_ridge"] = [0.1, 1.0] if "max_channels" not in o else np.array([0.1, 1.0])
        o.pop("max_channels", None)
        o["class_weight"] = None
        return R_DST_Ridge(n_shapelets=5, random_state=2, **o), o
    from convst.classifiers import R_DST_Ensemble
    from convst.transformers._input_transformers import Raw, Derivate
    o["proba_norm"] = [0.5, 0.9] if "max_channels" not in o else np.array([0.5, 0.9])
    o["input_transformers"] = [Raw(), Derivate()]
    return R_DST_Ensemble(n_shapelets_per_estimator=4, random_state=2, n_jobs=2, **o), o


class Watch(object):
    def __init__(self):
        self.items = []

    def add(self, name, obj):
        self.items.append((name, obj, digest(obj)))

    def check(self, when):
        for name, obj, d in self.items:
            if digest(obj) != d:
                raise Violation("%s was modified by %s" % (name, when))

    def forget(self, obj):
        self.items = [i for i in self.items if i[1] is not obj]


def ops_model(ctx, model, kind, opts, depth):
    form = ctx.pick(forms(kind), "form")
    y = np.array([["b", "a", "b", "a"], [1, 0, 1, 0]][ctx.choose(2, "labels")])
    X = build(kind, form, 1)
    others = [build(kind, form, 2, n=6 if kind in VAR else 5), build(kind, form, 3, m=1)]
    est, pars = make(model, OPTS[opts])
    w = Watch()
    w.add("X", X)
    w.add("y", y)
    for i, o in enumerate(others):
        w.add("test data %d" % i, o)
    for k, v in pars.items():
        if k != "input_transformers":
            w.add("parameter %s" % k, v)
    what = "fit"
    est.fit(X, y)
    w.check("fit (%s, %s, %s, %s)" % (model, kind, form, OPTS[opts]))
    call = est.transform if model == "rdst" else est.predict
    base = np.array(call(X))
    results = []
    log = ["fit"]
    for step in range(depth):
        names = ["refit", "apply", "apply other", "apply one", "write result", "write training data"]
        names += ["fit_transform"] if model == "rdst" else ["score"]
        op = names[ctx.choose(len(names), "operation")]
        log.append(op)
        if op == "refit":
            est.fit(X, y)
        elif op == "apply":
            r = call(X)
            if not np.array_equal(np.asarray(r), base):
                raise Violation("the same data gives %s then %s after %s (%s, %s)" % (
                    base.tolist(), np.asarray(r).tolist(), log, model, kind))
            results.append(r)
            w.add("the result of an earlier call", r)
        elif op == "apply other":
            r = call(others[0])
            results.append(r)
            w.add("the result of an earlier call", r)
        elif op == "apply one":
            r = call(others[1])
            results.append(r)
            w.add("the result of an earlier call", r)
        elif op == "write result":
            if not results:
                raise Prune()
            r = results[-1]
            w.forget(r)
            try:
                r[...] = r[::-1] * 0 + 7 if r.dtype.kind == "f" else r[0]
            except ValueError:
                pass
            r2 = np.asarray(call(X))
            if not np.array_equal(r2, base):
                raise Violation("writing into a returned matrix changes later results from %s to %s (%s, %s)" % (
                    base.tolist(), r2.tolist(), model, kind))
        elif op == "write training data":
            keep = copy.deepcopy(X)
            arr = X if isinstance(X, np.ndarray) and X.dtype != object else None
            fitted = np.array(call(keep))
            if arr is not None:
                arr[...] = 0
            else:
                for a in X:
                    a[...] = 0
            r2 = np.asarray(call(keep))
            if not np.array_equal(r2, fitted):
                raise Violation("writing into the training data after fit changes later results from %s to %s (%s, %s, %s)" % (
                    fitted.tolist(), r2.tolist(), model, kind, form))
            if arr is not None:
                arr[...] = keep
            else:
                for a, b in zip(X, keep):
                    a[...] = b
        elif op == "fit_transform":
            r = est.fit_transform(X, y)
            if not np.array_equal(np.asarray(r), base):
                raise Violation("fit_transform gives %s instead of %s" % (np.asarray(r).tolist(), base.tolist()))
            results.append(r)
            w.add("the result of an earlier call", r)
        else:
            est.score(X, y)
        w.check("%s (%s, %s, %s, %s)" % (log, model, kind, form, OPTS[opts]))
    ctx.outcome = (kind, form, base.tobytes() if base.dtype.kind == "f" else base.tolist())
    ctx.notes["snapshots compared"] = len(w.items) * (depth + 1)


def transformers():
    from convst.transformers import _input_transformers as it
    return {"Raw": it.Raw, "Derivate": it.Derivate, "Derivate2": lambda: it.Derivate(order=2), "Periodigram": it.Periodigram,
            "Z_normalizer": it.Z_normalizer, "FastHankelTransform": it.FastHankelTransform,
            "c_StandardScaler": it.c_StandardScaler, "c_MinMaxScaler": it.c_MinMaxScaler}


def ops_inputs(ctx, name, kind, depth):
    """Input transformers and scalers."""
    form = ctx.pick(forms(kind), "form")
    if name in ("Z_normalizer", "FastHankelTransform") and kind in VAR:
        raise Prune()
    data_of = lambda salt, m=4: build(kind, form, salt, n=6, m=m)
    if name.startswith("c_"):
        if kind in VAR:
            raise Prune()
        data_of = lambda salt, m=4: build(kind, form, salt, n=6, m=m).reshape(m, -1)
    X, X2 = data_of(1), data_of(2)
    est = transformers()[name]()
    w = Watch()
    w.add("X", X)
    w.add("other data", X2)
    est.fit(X)
    w.check("fit of %s" % name)
    base = digest(_norm(est.transform(X)))
    log = ["fit"]
    for step in range(depth):
        op = ctx.pick(["refit", "transform", "transform other", "fit_transform", "write result"], "operation")
        log.append(op)
        if op == "refit":
            est.fit(X)
        elif op == "transform other":
            r = est.transform(X2)
            if name != "Raw":
                w.add("the result of an earlier call", r)
        else:
            r = est.transform(X) if op != "fit_transform" else est.fit_transform(X)
            if digest(_norm(r)) != base:
                raise Violation("%s gives another result for the same data after %s" % (name, log))
            if name != "Raw":
                w.add("the result of an earlier call", r)
                if op == "write result":
                    w.forget(r)
                    for a in (r if isinstance(r, list) else [r]):
                        a[...] = 0
                    if digest(_norm(est.transform(X))) != base:
                        raise Violation("writing into the result of %s changes its later results" % name)
        w.check("%s of %s (%s, %s)" % (log, name, kind, form))
    ctx.outcome = (name, kind, form, base)
    ctx.notes["snapshots compared"] = len(w.items) * (depth + 1)


def _norm(r):
    return [np.asarray(a, dtype=float) for a in r]


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for opts in range(len(OPTS)):
            out.append(("transformer %s %d" % (kind, opts), "ops_model", dict(
                model="rdst", kind=kind, opts=opts, depth=(4 if t else 3) - (opts == 4)), 800))
            out.append(("ridge %s %d" % (kind, opts), "ops_model", dict(
                model="ridge", kind=kind, opts=opts, depth=3 if t else 2), 300))
            out.append(("ensemble %s %d" % (kind, opts), "ops_model", dict(
                model="ensemble", kind=kind, opts=opts, depth=2 if t else 1), 300))
        for name in ("Raw", "Derivate", "Derivate2", "Periodigram", "Z_normalizer", "FastHankelTransform", "c_StandardScaler",
                     "c_MinMaxScaler"):
            out.append(("%s %s" % (name, kind), "ops_inputs", dict(name=name, kind=kind, depth=4 if t else 3), 50))
    return out
