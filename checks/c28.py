# -*- coding: utf-8 -*-
"""C28: a failed fit leaves no mixed model, and estimators sharing parameters do not affect one another."""
import copy

from .fitlib import *

BOUNDS = {
    "quick": "every crash point of a fit (each random draw inside the sampling, entry and exit of the shapelet fit and transform, of the input "
             "transformers, of the scaler and of the linear model) for all pairs (previous data, new data) of the 4 kinds of series and no "
             "previous model, with and without changed parameters, R_DST, R_DST_Ridge and R_DST_Ensemble with 2 members; every crash point "
             "of predict; all pairs of component crash points in two failed fits; all orders of 3 operations (fit on 2 data sets, failed fit, "
             "set_params, predict) of 2 estimators sharing every parameter object, 7 pairs of estimators",
    "thorough": "more previous models and options, three failed fits, all orders of 4 operations"}


class Crash(Exception):
    pass


class Center(object):
    """An input transformer that learns from its training data, and counts how often it was fitted."""

    def __init__(self, scale=1.0):
        self.scale = scale

    def get_params(self, deep=True):
        return {"scale": self.scale}

    def set_params(self, **k):
        self.__dict__.update(k)
        return self

    def fit(self, X, y=None):
        event("input transformer fit")
        self.fits_ = getattr(self, "fits_", 0) + 1
        self.mean_ = float(np.mean([np.mean(x) for x in X])) + 0.1 * self.fits_
        event("input transformer fitted")
        return self

    def transform(self, X):
        event("input transformer transform")
        f = [(np.asarray(x, dtype=float) - self.mean_) ** 2 * self.scale for x in X]
        return f if isinstance(X, list) else np.array(f)


# ------------------------------------------------------------------ crash points
class Faults(object):
    at = None
    n = 0
    draws = True
    fired = None


faults = Faults()


def event(name):
    if faults.at is None:
        return
    faults.n += 1
    if faults.n == faults.at:
        faults.fired = name
        raise Crash(name)


class CountingRNG(rt.StateRNG):
    """Draws of the real generator; every draw is a crash point."""

    def seed(self, s=None):
        self.gen = np.random.RandomState(None if s is None else int(s) % (2 ** 32))

    def __init__(self):
        self.gen = np.random.RandomState(0)

    def state(self):
        if faults.draws:
            event("random draw")
        return self.gen


_patched = []


def _around(cls, name, label):
    orig = cls.__dict__[name]

    def f(self, *a, **k):
        event(label + " starts")
        out = orig(self, *a, **k)
        event(label + " ends")
        return out
    f.__name__ = name
    f.__wrapped__ = orig
    setattr(cls, name, f)


def patch():
    if _patched:
        return
    _patched.append(1)
    from convst.transformers import R_DST as T
    from sklearn.preprocessing import StandardScaler
    from sklearn.linear_model import RidgeClassifierCV
    _around(T, "fit", "shapelet fit")
    _around(T, "transform", "shapelet transform")
    _around(StandardScaler, "fit", "scaler fit")
    _around(StandardScaler, "transform", "scaler transform")
    _around(RidgeClassifierCV, "fit", "linear model fit")
    _around(RidgeClassifierCV, "decision_function", "linear model decision")


def run(f, at=-1, draws=True):
    """Runs f with a crash at the at-th event (-1: none); returns the number of events."""
    faults.at, faults.n, faults.fired, faults.draws = at, 0, None, draws
    rt.rng = CountingRNG()
    try:
        f()
    finally:
        faults.at = None
        rt.rng = None
    return faults.n


# ------------------------------------------------------------------ models and data
def sets():
    L = ["k", "b", "k", "b", "b"]
    return {
        "univariate": data("univariate", [9] * 5, L, 1, salt=2801),
        "multivariate": data("multivariate", [8] * 4, [0, 1, 1, 0], 2, salt=2802),
        "univariate_variable": data("univariate_variable", [8, 9, 8, 10], [2, 2, 5, 5], 1, salt=2803),
        "multivariate_variable": data("multivariate_variable", [10, 8, 9, 11], [1, 0, 0, 1], 2, salt=2804),
        "other": data("univariate", [9] * 6, [3, 4, 5, 3, 4, 5], 1, salt=2805),
    }


OPTS = [dict(shapelet_lengths=[3]), dict(shapelet_lengths=[0.5], normalize_output=True, n_samples=0.75),
        dict(shapelet_lengths_bounds=[3, 4], phase_invariance=True, percentiles=[0, 50])]
CHANGE = [{}, dict(normalize_output=True, random_state=11), dict(shapelet_lengths=[4, 3], percentiles=[40, 60])]


def make(model, opts, shared=None):
    o = dict(copy.deepcopy(opts))
    o.update(shared or {})
    o.setdefault("random_state", 5)
    if model == "rdst":
        return R_DST(n_shapelets=3, **o)
    if model == "ridge":
        from convst.classifiers import R_DST_Ridge
        return R_DST_Ridge(n_shapelets=3, **o)
    from convst.classifiers import R_DST_Ensemble
    from convst.transformers._input_transformers import Raw
    o.setdefault("input_transformers", [Center(), Raw()])
    o.setdefault("proba_norm", [0.5, 0.9])
    return R_DST_Ensemble(n_shapelets_per_estimator=3, n_jobs=1, **o)


def queries(kind):
    """New series of the kind, of at least the training lengths"""
    return data(kind, [11, 12, 11, 13] if kind in VAR else [11] * 4, [0] * 4, 2, salt=2850).X


def answer(model, est, X):
    """What the estimator says about X, with the decision values of its linear models; or the error."""
    saved, rt.ridge_log = rt.ridge_log, []
    try:
        if model == "rdst":
            return ("ok", digest(np.asarray(est.transform(X))))
        p = np.asarray(est.predict(X))
        return ("ok", p.tolist(), tuple(np.round(d, 9).tobytes() for what, _, _, d in rt.ridge_log if what == "decide"))
    except Crash:
        raise
    except Exception as e:
        from mc.engine import _env_failure
        from sklearn.exceptions import NotFittedError
        if not isinstance(e, NotFittedError) and _env_failure(e, e.__traceback__):
            raise
        return ("error",)
    finally:
        rt.ridge_log = saved


def answers(model, est, Xs):
    return [answer(model, est, X) for X in Xs]


def copied(X):
    return copy.deepcopy(X)


def must_be_one_of(got, old, new, what, kinds=False):
    """Every answer is an error or that of the same one of the two models.  kinds: the shapelets of the previous model may
    also have become applicable to series of the new kind, which it rejected."""
    def fits(m):
        return m is not None and all(g[0] == "error" or g == a or (kinds and m is old and a[0] == "error")
                                     for g, a in zip(got, m))
    if all(g[0] == "error" for g in got) or fits(old) or fits(new):
        return
    raise Violation("after %s the estimator gives neither the previous model's answers, nor the new one's, nor an error: "
                    "%s (previous %s, new %s)" % (what, _brief(got), _brief(old), _brief(new)))


def _brief(a):
    return None if a is None else [g[:2] if g[0] == "error" else repr(g[1])[:160] for g in a]


def plain(est):
    return {k: _plain(v) for k, v in est.get_params(deep=False).items()}


def _plain(v):
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(_plain(x) for x in v))
    if hasattr(v, "get_params"):
        return (type(v).__name__, tuple(sorted((k, repr(x)) for k, x in vars(v).items() if not k.startswith("__"))))
    return digest(v)


_count = {}


def failing(ctx, model, old, new, opts, pairs=False):
    """A fit on `new` crashes at every point, after a fit on `old` (or none)."""
    patch()
    DS = sets()
    D = DS[new]
    change = CHANGE[ctx.choose(len(CHANGE), "parameters changed before")] if not pairs else {}
    if change and model == "ensemble":
        pairs = "components"                # crash at the components only, once
    base = dict(OPTS[opts])

    def build():
        est = make(model, base)
        if old is not None:
            est.fit(copied(DS[old].X), DS[old].y.copy())
        if change:
            est.set_params(**copy.deepcopy(change))
        return est
    Xs = [queries(k) for k in sorted(set(x if x != "other" else "univariate" for x in (old, new) if x))]
    Xs += [copied(DS[x].X) for x in (old, new) if x]
    key = (model, old, new, opts, repr(change), pairs)
    if key not in _count:
        est = build()
        before = answers(model, est, Xs) if old is not None else None
        n = run(lambda: est.fit(copied(D.X), D.y.copy()), draws=not pairs)
        after = answers(model, est, Xs)
        fresh = make(model, base)
        if change:
            fresh.set_params(**copy.deepcopy(change))
        run(lambda: fresh.fit(copied(D.X), D.y.copy()))
        _count[key] = n, before, after, answers(model, fresh, Xs)
    n, before, after, fresh = _count[key]
    if after != fresh:
        raise Violation("a %s fitted before on %s and then on %s answers otherwise than a new one" % (model, old, new))
    est = build()
    history = []
    for step in range(2 if pairs is True else 1):
        k = 1 + ctx.choose(n, "crash point")
        params = plain(est)
        X, y = copied(D.X), D.y.copy()
        marks = digest(X), digest(y)
        done = False
        try:
            run(lambda: est.fit(X, y), k, draws=not pairs)
            done = True
        except Crash:
            pass
        history.append("a fit on %s ended by an exception at event %d of %d (%s)" % (new, k, n, faults.fired))
        what = "%s (%s, first fitted on %s, %s, then %s)" % (" and ".join(history), model, old, base, change)
        if (digest(X), digest(y)) != marks:
            raise Violation("%s changed the training data" % what)
        if plain(est) != params:
            raise Violation("%s changed the parameters from %s to %s" % (what, params, plain(est)))
        got = answers(model, est, Xs)
        if done:
            if got != fresh:
                raise Violation("%s: fit hid the exception and the model differs from the one fitted without" % what)
        must_be_one_of(got, before, fresh, what, model == "rdst")
        if answers(model, est, Xs) != got:
            raise Violation("after %s the same queries have different answers" % what)
    run(lambda: est.fit(copied(D.X), D.y.copy()))
    got = answers(model, est, Xs)
    if got != fresh:
        raise Violation("fitting again after %s gives another model than a new estimator: %s instead of %s" % (
            what, _brief(got), _brief(fresh)))
    ctx.notes["crash points"] = 1
    ctx.outcome = (model, old, new, faults.fired, digest(repr(got)))


INVALID = ("labels missing", "no series", "one class", "infinite", "channels", "scalar")


def rejected(ctx, model, old, opts):
    """A fit rejecting its input (or an unusual input that is accepted) leaves the previous or a new model."""
    patch()
    DS = sets()
    how = INVALID[ctx.choose(len(INVALID), "input")]
    new = KINDS[ctx.choose(4, "kind")]
    D = DS[new]
    X, y = copied(D.X), D.y.copy()
    if how == "labels missing":
        y = y[:-1]
    elif how == "no series":
        X, y = X[:0], y[:0]
    elif how == "one class":
        y = np.zeros(len(y), dtype=int)
    elif how == "infinite":
        X[1][0, 2] = np.inf
    elif how == "channels":
        X = [np.asarray(x) for x in X]
        X[0] = np.vstack([X[0], X[0]])
    elif how == "scalar":
        X = 3.0
    Xs = [queries(k) for k in sorted(set([old, new]))] + [copied(DS[old].X)]
    est = make(model, OPTS[opts]).fit(copied(DS[old].X), DS[old].y.copy())
    before = answers(model, est, Xs)
    fresh = make(model, OPTS[opts])
    params = plain(est)
    outcome = []
    for e in (est, fresh):
        try:
            e.fit(copied(X), y.copy())
            outcome.append("accepted")
        except Exception as err:
            from mc.engine import _env_failure
            if _env_failure(err, err.__traceback__):
                raise
            outcome.append("rejected")
    if outcome[0] != outcome[1]:
        raise Violation("fit with %s (%s): %s after a fit on %s, %s on a new %s" % (how, new, outcome[0], old, outcome[1], model))
    got = answers(model, est, Xs)
    what = "a fit on %s with %s (%s), %s first fitted on %s" % (new, how, outcome[0], model, old)
    if plain(est) != params:
        raise Violation("%s changed the parameters from %s to %s" % (what, params, plain(est)))
    af = answers(model, fresh, Xs)
    if outcome[0] == "rejected":
        if any(g[0] == "ok" for g in af):
            raise Violation("%s: a new estimator rejecting it answers anyway" % what)
        must_be_one_of(got, before, None, what, model == "rdst")
    elif got != af:
        raise Violation("%s answers %s but a new estimator %s" % (what, _brief(got), _brief(af)))
    est.fit(copied(DS[old].X), DS[old].y.copy())
    if answers(model, est, Xs) != before:
        raise Violation("fitting the first data again after %s gives another model" % what)
    ctx.outcome = (model, old, new, how, outcome[0], tuple(g[0] for g in got))


def using(ctx, model, kind, opts):
    """predict/transform crashing at every point changes nothing"""
    patch()
    D = sets()[kind]
    est = make(model, OPTS[opts]).fit(copied(D.X), D.y.copy())
    Xs = [queries(kind), copied(D.X)]
    before = answers(model, est, Xs)
    f = est.transform if model == "rdst" else est.predict
    key = (model, kind, opts)
    if key not in _count:
        _count[key] = run(lambda: f(Xs[0]))
    n = _count[key]
    done = []
    for step in range(2):
        k = 1 + ctx.choose(n, "crash point")
        try:
            run(lambda: f(copied(Xs[ctx.choose(2, "queries")])), k)
        except Crash:
            pass
        done.append(faults.fired)
        if answers(model, est, Xs) != before:
            raise Violation("a %s whose %s failed at %s answers otherwise than before (%s)" % (
                model, "transform" if model == "rdst" else "predict", done, kind))
    ctx.notes["crash points"] = 2
    ctx.outcome = (model, kind, tuple(done))


# ------------------------------------------------------------------ sharing
PAIRS = {
    "two transformers": ("rdst", "rdst"), "two ridges": ("ridge", "ridge"), "two ensembles": ("ensemble", "ensemble"),
    "transformer and ridge": ("rdst", "ridge"), "ridge and ensemble": ("ridge", "ensemble"),
    "transformer and ensemble": ("rdst", "ensemble"), "ensembles of one member": ("ensemble", "ensemble"),
    "default parameters": ("ensemble", "ensemble"), "default ridges": ("ridge", "rdst"),
}


def shared_objects(pair):
    from convst.transformers._input_transformers import Raw
    if pair.startswith("default"):
        return {}
    s = dict(shapelet_lengths=[3, 4, 30], percentiles=np.array([5.0, 30.0]))
    s["alphas_ridge"] = [0.1, 1.0, 10.0]
    s["class_weight"] = {"k": 1.0, "b": 2.0, 3: 1.0, 4: 1.5, 5: 1.0}
    c = Center(0.5)
    s["input_transformers"] = [c, Raw()] if pair != "ensembles of one member" else [c, c]
    s["proba_norm"] = [0.5, 0.5]
    return s


def of_model(model, pair, objs, who):
    from convst.classifiers import R_DST_Ensemble
    o = dict(objs)
    if model == "rdst":
        for k in ("alphas_ridge", "class_weight"):
            o.pop(k, None)
    if model != "ensemble":
        o.pop("input_transformers", None)
        o.pop("proba_norm", None)
    if pair.startswith("default"):
        if model == "ensemble":
            return R_DST_Ensemble(n_shapelets_per_estimator=2, random_state=[5, 6][who])
        return make(model, {}, dict(random_state=[5, 6][who]))
    return make(model, {}, dict(o, random_state=[5, 6][who]))


OPS = ("fit", "fit other data", "failed fit", "set_params")


def apply_op(model, est, op):
    DS = sets()
    if op in ("fit", "fit other data"):
        D = DS["univariate" if op == "fit" else "other"]
        est.fit(D.X, D.y)
    elif op == "failed fit":
        D = DS["univariate"]
        try:
            # the last component fails: everything before it has been fitted
            n = _count.get(("last", model))
            if n is None:
                n = _count[("last", model)] = 4 if model == "ensemble" else 2
            run(lambda: est.fit(D.X, D.y), n, draws=False)
        except Crash:
            pass
    else:
        est.set_params(normalize_output=True)
        if model != "ensemble":
            est.set_params(n_shapelets=2, proba_norm=0.0)


_alone = {}


def alone(pair, who, ops):
    key = (pair, who, tuple(ops))
    if key not in _alone:
        est = of_model(PAIRS[pair][who], pair, shared_objects(pair), who)
        for op in ops:
            apply_op(PAIRS[pair][who], est, op)
        _alone[key] = answers(PAIRS[pair][who], est, sharing_queries())
    return _alone[key]


_q = []


def sharing_queries():
    if not _q:
        _q.extend([queries("univariate"), sets()["other"].X])
    return _q


def sharing(ctx, pair, depth, first):
    patch()
    models = PAIRS[pair]
    objs = shared_objects(pair)
    marks = {k: _plain(v) for k, v in objs.items()}
    ests = [of_model(m, pair, objs, w) for w, m in enumerate(models)]
    own = [[], []]
    log = []
    for step in range(depth):
        who, op = (first // len(OPS), OPS[first % len(OPS)]) if step == 0 else (
            ctx.choose(2, "estimator"), OPS[ctx.choose(len(OPS), "operation")])
        apply_op(models[who], ests[who], op)
        own[who].append(op)
        log.append("%s of %s %s" % (op, "AB"[who], models[who]))
        for w in (0, 1):
            if not own[w]:
                continue
            got, want = answers(models[w], ests[w], sharing_queries()), alone(pair, w, own[w])
            if got != want:
                raise Violation("%s: after %s, the %s %s answers %s, but %s when alone (%s)" % (
                    pair, log, "AB"[w], models[w], _brief(got), _brief(want), own[w]))
        for k, v in objs.items():
            if _plain(v) != marks[k]:
                raise Violation("%s: the parameter object %s was %s and is %s after %s" % (pair, k, marks[k], _plain(v), log))
    ctx.notes["interleavings"] = 1
    ctx.outcome = (pair, tuple(log))


def jobs(tier):
    t = tier == "thorough"
    out = []
    for model in ("rdst", "ridge", "ensemble"):
        for new in KINDS:
            for old in (None,) + KINDS + (("other",) if new == "univariate" else ()):
                for o in range(len(OPTS)) if t else [KINDS.index(new) % 3] if model == "ensemble" else [
                        KINDS.index(new) % 3, (KINDS.index(new) + 1 + (KINDS + (None, "other")).index(old)) % 3]:
                    out.append(("crash %s %s->%s options %d" % (model, old, new, o), "failing",
                                dict(model=model, old=old, new=new, opts=o), 300))
        for i, kind in enumerate(KINDS):
            for old in (None, KINDS[(i + 1) % 4], KINDS[(i + 2) % 4]) if t else (KINDS[(i + 1) % 4],):
                out.append(("two crashes %s %s->%s" % (model, old, kind), "failing",
                            dict(model=model, old=old, new=kind, opts=i % 3, pairs=True), 200))
            for o in range(len(OPTS)) if t else (i % 3,):
                out.append(("rejected %s %s options %d" % (model, kind, o), "rejected", dict(model=model, old=kind, opts=o), 60))
                out.append(("crash in use %s %s options %d" % (model, kind, o), "using", dict(model=model, kind=kind, opts=o), 60))
    for pair in PAIRS:
        for first in range(2 * len(OPS)):
            out.append(("sharing %s %d" % (pair, first), "sharing", dict(pair=pair, depth=4 if t else 3, first=first), 300))
    seen, uniq = set(), []
    for j in out:
        if j[0] not in seen:
            seen.add(j[0])
            uniq.append(j)
    return uniq
