# -*- coding: utf-8 -*-
"""C10: fitting is independent of the estimator's past."""
import copy
import pickle

from .fitlib import *

BOUNDS = {
    "quick": "all histories of 1-2 operations (fit on 6 datasets of all kinds, lengths and channel counts incl. a rejected one, "
             "transform/predict, set_params of 14 parameters, clone, deep copy, pickle round trip, use before fit) before the final fit on each of 5 datasets; "
             "R_DST with 3 parameter sets, R_DST_Ridge, R_DST_Ensemble (histories of 1)",
    "thorough": "histories of up to 3 operations (2 for the ensemble), 5 parameter sets"}


def datasets():
    L = ["k", "b", "k", "b"]
    return {
        "uni": data("univariate", [9] * 4, L, 1, salt=1001),
        "multi": data("multivariate", [8] * 4, [0, 1, 1, 0], 3, salt=1002),
        "univar": data("univariate_variable", [7, 9, 6, 8], [2, 2, 5, 5], 1, salt=1003),
        "multivar": data("multivariate_variable", [10, 8, 9, 12], [1, 0, 0, 1], 2, salt=1004),
        "short": data("univariate", [5] * 4, [0, 1, 2, 1], 1, salt=1005),
    }


def bad():
    return [gen(2, 6, salt=1006), gen(1, 7, salt=1007)], np.array([0, 1])


SETS = [("n_shapelets", 3), ("shapelet_lengths", [3, 4]), ("shapelet_lengths", [0.4]), ("transform_type", "auto"),
        ("transform_type", "multivariate_variable"), ("min_len", 5), ("shapelet_lengths_bounds", [3, 5]), ("random_state", 7),
        ("percentiles", [0, 50]), ("max_channels", 1), ("phase_invariance", True), ("proba_norm", 0.0), ("alpha", 0.1),
        ("prime_dilations", True), ("normalize_output", True), ("n_samples", 0.75)]
BASE = [dict(shapelet_lengths=[3, 11]), dict(shapelet_lengths=[0.5], normalize_output=True),
        dict(shapelet_lengths_bounds=[0.3, 0.6], phase_invariance=True, n_samples=0.75), dict(min_len=6, max_channels=2),
        dict(transform_type="multivariate_variable", prime_dilations=True)]


def make(model, params):
    p = dict(params)
    if model == "rdst":
        return R_DST(**dict(dict(n_shapelets=6, random_state=3), **p))
    if model == "ridge":
        from convst.classifiers import R_DST_Ridge
        return R_DST_Ridge(**dict(dict(n_shapelets=6, random_state=3), **p))
    from convst.classifiers import R_DST_Ensemble
    return R_DST_Ensemble(**dict(dict(n_shapelets_per_estimator=3, random_state=3, n_jobs=2), **p))


def rename(model, name, value):
    if model == "ridge" and name == "max_channels":
        return None
    if model == "ensemble":
        if name == "n_shapelets":
            return "n_shapelets_per_estimator", value
        if name == "alpha":
            return "shp_alpha", value
        if name == "proba_norm":
            return "proba_norm", [value] * 3
    return name, value


COPY = ["deep copy", "pickle round trip"]


def duplicate(est, how):
    if how == 0:
        return copy.deepcopy(est)
    return pickle.loads(pickle.dumps(est))


def results(model, est, D):
    if model == "rdst":
        return (freeze(est.shapelets_), np.array(est.transform(D.X)))
    if model == "ridge":
        return (freeze(est.transformer.shapelets_), np.array(est.transformer.transform(D.X)), np.array(est.predict(D.X)))
    return (tuple(freeze(m.steps[1][1].shapelets_) for m in est.models), np.array(est.model_weights, dtype=float),
            np.array(est.predict(D.X)))


def equal(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f":
        return np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
    return bool((a == b).all())


_fresh = {}


def fresh(model, params, name):
    key = (model, repr(sorted(params.items(), key=lambda t: t[0])), name)
    if key not in _fresh:
        D = datasets()[name]
        try:
            est = make(model, params).fit(D.X, D.y)
            _fresh[key] = ("ok", results(model, est, D))
        except Exception as e:
            from mc.engine import _env_failure
            if _env_failure(e, e.__traceback__):
                raise
            _fresh[key] = ("error", type(e).__name__)
    return _fresh[key]


def params_kept(model, est, params, history):
    got = est.get_params(deep=False)
    for k, v in params.items():
        if k == "input_transformers":
            continue
        g = got[k]
        if isinstance(v, list):
            same = np.array_equal(np.asarray(g), np.asarray(v))
        else:
            same = g == v and (isinstance(g, bool) == isinstance(v, bool))
        if not same:
            raise Violation("parameter %s was %r and is now %r after %s (%s)" % (k, v, g, history, model))
    for k in ("min_len", "max_channels", "shapelet_lengths_bounds", "n_samples"):
        if k in got and k not in params and got[k] is not None:
            raise Violation("parameter %s was None and is now %r after %s (%s)" % (k, got[k], history, model))


def history(ctx, model, base, depth):
    from sklearn.base import clone
    params = dict(BASE[base])
    if model == "ridge":
        params.pop("max_channels", None)
    DS = datasets()
    est = make(model, params)
    hist, fitted = [], None
    for step in range(1 + ctx.choose(depth, "operations")):
        ops = [("fit", n) for n in sorted(DS)] + [("fit", "rejected")] + [("set", s) for s in range(len(SETS))] + [("use", 0)]
        ops += [("clone", 0), ("copy", 0), ("copy", 1)]
        op, arg = ops[ctx.choose(len(ops), "operation")]
        if op == "fit" and arg == "rejected":
            hist.append("fit rejected data")
            try:
                est.fit(*bad())
            except ValueError:
                pass
        elif op == "fit":
            hist.append("fit %s" % arg)
            if fresh(model, params, arg)[0] == "ok":
                est.fit(DS[arg].X, DS[arg].y)
                fitted = arg
            else:
                try:
                    est.fit(DS[arg].X, DS[arg].y)
                except Exception:
                    pass
                else:
                    raise Violation("%s succeeded but fails on a new estimator with %s" % (hist, fresh(model, params, arg)))
        elif op == "set":
            r = rename(model, *SETS[arg])
            if r is None:
                raise Prune()
            hist.append("set_params(%s=%r)" % r)
            params[r[0]] = r[1]
            est.set_params(**{r[0]: r[1] if not isinstance(r[1], list) else list(r[1])})
        elif op == "clone":
            hist.append("clone")
            before = est.get_params(deep=False)
            est2 = clone(est)
            for k, v in est2.get_params(deep=False).items():
                if k == "input_transformers":
                    continue
                w = before[k]
                if type(v) is not type(w) or not (np.array_equal(v, w) if isinstance(v, (list, np.ndarray)) else v == w):
                    raise Violation("clone changed %s from %r to %r" % (k, w, v))
            est, fitted = est2, None
        elif op == "copy":
            est, old = duplicate(est, arg), est
            D = DS[fitted] if fitted else None
            if fitted and hist and hist[-1] == "fit %s" % fitted and not equal(results(model, old, D), results(model, est, D)):
                raise Violation("a %s of a %s fitted on %s gives other results than the original" % (COPY[arg], model, fitted))
            hist.append(COPY[arg])
        else:
            hist.append("transform")
            D = DS[fitted] if fitted else DS["uni"]
            f = est.transform if model == "rdst" else est.predict
            if fitted is None:
                from sklearn.exceptions import NotFittedError
                try:
                    f(D.X)
                except (NotFittedError, AttributeError, ValueError):
                    pass
            elif hist[-2].startswith("fit") and hist[-2] != "fit rejected data":
                f(D.X)
            else:
                try:
                    f(D.X)
                except Exception:
                    pass
    final = sorted(DS)[ctx.choose(len(DS), "final dataset")]
    D = DS[final]
    want = fresh(model, params, final)
    try:
        est.fit(D.X, D.y)
        got = ("ok", results(model, est, D))
    except Exception as e:
        if want[0] == "ok":
            raise Violation("after %s, fit on %s fails with %s: %s although a new %s estimator accepts it" % (
                hist, final, type(e).__name__, e, model))
        got = ("error", type(e).__name__)
    if got[0] != want[0] or (got[0] == "ok" and not equal(got[1], want[1])):
        raise Violation("after %s, fit on %s gives %s but a new %s estimator with parameters %s gives %s" % (
            hist, final, _brief(got), model, params, _brief(want)))
    params_kept(model, est, params, hist + ["fit %s" % final])
    if got[0] == "ok":
        # transforming (or predicting) other data changes nothing
        f = est.transform if model == "rdst" else est.predict
        a = np.array(f(D.X))
        other = D.X[::-1] if isinstance(D.X, list) else np.ascontiguousarray(D.X[::-1] * 2.5)
        f(other)
        f(D.X[:1])
        if not np.array_equal(a, np.asarray(f(D.X))):
            raise Violation("transforming other data changed the result of transforming the training data (%s, %s)" % (model, final))
        if not equal(results(model, est, D), got[1]):
            raise Violation("transforming changed the fitted state (%s, %s)" % (model, final))
    ctx.outcome = (params.get("transform_type"), final, digest(got))
    ctx.notes["histories compared with a new estimator"] = 1


def _brief(r):
    if r[0] == "error":
        return r
    return repr([np.asarray(a).tolist() for a in r[1] if not isinstance(a, tuple)])[:500] + " " + repr(
        [np.asarray(a).tolist() for a in r[1][0] if not isinstance(a, tuple)])[:500]


def jobs(tier):
    t = tier == "thorough"
    out = []
    for base in range(5 if t else 3):
        out.append(("transformer %d" % base, "history", dict(model="rdst", base=base, depth=3 if t else 2), 1000))
    for base in range(4 if t else 2):
        out.append(("ridge %d" % base, "history", dict(model="ridge", base=base, depth=2), 1800))
        out.append(("ensemble %d" % base, "history", dict(model="ensemble", base=base, depth=2 if t else 1), 1000))
    return out
