# -*- coding: utf-8 -*-
"""C14: parameters are validated and the thread count is always usable."""
import multiprocessing
import os as _os

from .fitlib import *

BOUNDS = {
    "quick": "n_jobs in -40..40 and +-10**30 as int, int8..64, uint8..64, for 1, 2, 3, 4, 7, 8, 16, 64 CPUs; 40 values of other types for every "
             "checked parameter of the helpers, R_DST, R_DST_Ridge and R_DST_Ensemble; ensembles of 1-4 members for all n_jobs in -9..9",
    "thorough": "same, n_jobs in -300..300 and 12 CPU counts"}


class cpus(object):
    """Every place the code may learn the number of CPUs from says n."""

    def __init__(self, n):
        self.n = n

    def __enter__(self):
        import sys
        import joblib
        n = self.n
        fake = lambda *a, **k: n
        orig = [_os.cpu_count, multiprocessing.cpu_count, joblib.cpu_count]
        self.undo = []
        for m in [_os, multiprocessing, joblib] + [v for k, v in list(sys.modules.items()) if k.split(".")[0] == "convst"]:
            for name, v in list(vars(m).items()):
                if any(v is o for o in orig) or (v == multiprocessing.cpu_count if callable(v) else False):
                    self.undo.append((m, name, v))
                    setattr(m, name, fake)
        if hasattr(_os, "sched_getaffinity"):
            self.undo.append((_os, "sched_getaffinity", _os.sched_getaffinity))
            _os.sched_getaffinity = lambda pid: set(range(n))
        self.numba, rt.NUMBA_NUM_THREADS = rt.NUMBA_NUM_THREADS, n
        return self

    def __exit__(self, *a):
        rt.NUMBA_NUM_THREADS = self.numba
        for m, name, v in reversed(self.undo):
            setattr(m, name, v)


def as_type(v, t):
    if t == "int":
        return v
    d = np.dtype(t)
    i = np.iinfo(d)
    if not i.min <= v <= i.max:
        raise Prune()
    return d.type(v)


TYPES = ("int", "int8", "int16", "int32", "int64", "uint8", "uint64")


def resolved(n, ncpu):
    return min(n, ncpu) if n > 0 else max(1, ncpu + 1 + n)


def usable(got, ncpu, what):
    if isinstance(got, (bool, np.bool_)) or not isinstance(got, (int, np.integer)) or not 1 <= got <= ncpu:
        raise Violation("%s gives %r threads with %d CPUs" % (what, got, ncpu))


def jobs_number(ctx, ncpus, lo, hi):
    from convst.utils.checks_utils import check_n_jobs
    ncpu = ctx.pick(ncpus, "cpus")
    vals = list(range(lo, hi + 1)) + [10 ** 30, -10 ** 30]
    t = ctx.pick(TYPES, "type")
    n = as_type(ctx.pick(vals, "n_jobs"), t)
    with cpus(ncpu):
        if n == 0:
            for call in (lambda: check_n_jobs(n), lambda: R_DST(n_jobs=n), lambda: ridge(n_jobs=n)):
                must_fail(call, (ValueError,), "n_jobs=0")
            ctx.outcome = "rejected"
            return
        want = resolved(int(n), ncpu)
        got = check_n_jobs(n)
        usable(got, ncpu, "n_jobs=%r" % n)
        if got != want:
            raise Violation("n_jobs=%r gives %r jobs instead of %d with %d CPUs" % (n, got, want, ncpu))
        if t in ("int", "int64"):
            for name, make in (("R_DST", R_DST), ("R_DST_Ridge", ridge)):
                rt.num_threads = None
                est = make(n_jobs=n)
                if rt.num_threads is not None and rt.num_threads != want:
                    raise Violation("%s(n_jobs=%r) uses %r threads instead of %d with %d CPUs" % (name, n, rt.num_threads, want, ncpu))
    ctx.outcome = (ncpu, want)
    ctx.notes["counts resolved"] = 1


def ridge(**k):
    from convst.classifiers import R_DST_Ridge
    return R_DST_Ridge(**k)


def ens(**k):
    from convst.classifiers import R_DST_Ensemble
    return R_DST_Ensemble(**k)


def must_fail(call, kinds, what):
    from mc.engine import _env_failure
    try:
        r = call()
    except kinds:
        return
    except Exception as e:
        if _env_failure(e, e.__traceback__):
            raise
        raise Violation("%s: %s (%s) instead of %s" % (what, type(e).__name__, e, " or ".join(k.__name__ for k in kinds)))
    raise Violation("%s is accepted%s" % (what, "" if not isinstance(r, (int, float)) else " (gives %r)" % r))


OTHER = [True, False, 1.0, 2.5, -1.0, 0.0, np.float64(2), np.bool_(True), np.bool_(False), "2", "all", b"1", [1], (1,), {1: 2}, {3}, 2 + 0j,
         float("nan"), float("inf"), object(), np.array([1, 2]), np.array(2.0), int, len, range(3)]


def jobs_types(ctx):
    from convst.utils.checks_utils import check_n_jobs
    ncpu = ctx.pick((1, 2, 8), "cpus")
    with cpus(ncpu):
        v = ctx.pick([None] + OTHER, "value")
        if v is None:
            got = check_n_jobs(None)
            if got != 1:
                raise Violation("n_jobs=None gives %r jobs instead of 1" % got)
        else:
            must_fail(lambda: check_n_jobs(v), (ValueError,), "n_jobs=%r" % (v,))
    ctx.outcome = v is None


def ensemble_threads(ctx, ncpus):
    """Concurrent members x threads per member never need more than the machine, and both are at least one."""
    ncpu = ctx.pick(ncpus, "cpus")
    k = 1 + ctx.choose(4, "members")
    n = ctx.pick([None] + list(range(-9, 10)), "n_jobs")
    from convst.transformers._input_transformers import Raw
    D = data("univariate", [6] * 3, [0, 1, 0], salt=1400)
    asked = []

    def runner(tasks, n_jobs):
        asked.append((n_jobs, rt.num_threads))
        return [f(*a, **kw) for f, a, kw in tasks]
    rt.joblib_runner = runner
    with cpus(ncpu):
        make = lambda: ens(n_shapelets_per_estimator=1, shapelet_lengths=[3], n_jobs=n, proba_norm=[0.5] * k, random_state=0,
                           input_transformers=[Raw() for _ in range(k)], alphas_ridge=[1.0])
        if n == 0:
            must_fail(lambda: make().fit(D.X, D.y), (ValueError,), "ensemble with n_jobs=0")
            ctx.outcome = "rejected"
            return
        est = make().fit(D.X, D.y)
        est.predict(D.X)
    total = 1 if n is None else resolved(n, ncpu)
    for nj, nt in asked:
        nj = 1 if nj is None else nj
        usable(nj, total, "concurrent members of an ensemble with n_jobs=%r" % n)
        if nt is not None:
            usable(nt, total, "threads per member of an ensemble with n_jobs=%r" % n)
            if nj * nt > total:
                raise Violation("an ensemble of %d with n_jobs=%r (%d CPUs) runs %d members of %d threads" % (k, n, ncpu, nj, nt))
    ctx.outcome = tuple(asked)


NUM = [0, 1, -3, 10 ** 25, 0.0, 2.5, -1e300, float("nan"), float("inf"), np.int8(3), np.int64(-2), np.uint32(7), np.float16(0.5),
       np.float32(2), np.float64(-0.0)]
NOTNUM = [True, False, np.bool_(True), None, "1", "", b"2", [1], [], (1,), {}, {1}, np.array([1]), np.array([[1.0]]), object(), int]
BOOL = [True, False]
NOTBOOL = [0, 1, 0.0, 1.0, 2, "True", "", None, [], [True], (), np.int64(1), np.float64(0), np.array([True]), object(), bool]


def is_same(a, b):
    return a is b or (type(a) is type(b) and (a == b or a != a))


def helpers(ctx, which):
    from convst.utils import checks_utils as c
    f = c.check_is_numeric if which == "numeric" else c.check_is_boolean
    good, bad = (NUM, NOTNUM) if which == "numeric" else (BOOL, NOTBOOL)
    i = ctx.choose(len(good) + len(bad), "value")
    if i < len(good):
        got = f(good[i])
        if not is_same(got, good[i]):
            raise Violation("%s check returns %r for %r" % (which, got, good[i]))
    else:
        v = bad[i - len(good)]
        must_fail(lambda: f(v), (ValueError,), "%s check of %r" % (which, v))
    ctx.outcome = i < len(good)


GOODTYPE = list(KINDS) + ["auto", "AUTO", "Multivariate", "UNIVARIATE_VARIABLE"]
BADTYPE = ["", "univariat", "automatic", "variable", "univariate variable", "multi", "auto ", 3, None, ["auto"]]
GOODPCT = [[5, 10], [0, 0], [0, 100], [5.0, 10.0], [2, 2.5], np.array([1, 2]), np.array([0.5, 0.75])]
BADPCT = [[10, 5], [5.5, 5.4], ["5", "10"], ["a", "b"], [None, None], np.array([3, 2]), [[5, 10]], [], "ab", 5, np.array(["1", "2"])]
GOODBND = [None, [3, 5], (3, 5), [0.1, 0.9], np.array([3, 4]), [3, 0.5]]
BADBND = [[], [3], [3, 4, 5], (1,), np.array([1]), np.array([1, 2, 3]), 3]
GOODRED = [0, 0.0, 0.1, 0.5, 0.999, np.float64(0.25)]
BADRED = [1, 1.0, 1.5, 2, 10 ** 9, float("inf"), "0.5", None, True, [0.5]]
GOODLEN = [[11], [3, 4], [0.1, 0.5], np.array([5]), np.array([0.3, 0.2])]
BADLEN = [[], [[3]], np.array([]), np.zeros((2, 2)), 3, "3", None, {3: 4}]


def table(name):
    t = {
        "transform_type": (GOODTYPE, BADTYPE), "percentiles": (GOODPCT, BADPCT), "shapelet_lengths_bounds": (GOODBND, BADBND),
        "lengths_bounds_reduction": (GOODRED, BADRED), "shapelet_lengths": (GOODLEN, BADLEN),
        "phase_invariance": (BOOL, NOTBOOL), "normalize_output": (BOOL, NOTBOOL), "prime_dilations": (BOOL, NOTBOOL),
        "alpha": ([0.0, 0.5, 1, 1.0], NOTNUM), "proba_norm": ([0, 1, 0.8, np.float64(0.3)], NOTNUM),
        "n_samples": ([None, 0.5, 1.0, 2, np.float64(0.9)], [v for v in NOTNUM if v is not None]),
        "n_shapelets": ([1, 10, 10 ** 6, np.int64(4)], NOTNUM),
    }
    return t[name]


RENAME = {"alpha": "shp_alpha", "n_shapelets": "n_shapelets_per_estimator"}


def construct(ctx, model, name):
    good, bad = table(name)
    pname, wrap = name, lambda v: v
    if model == "ensemble":
        pname = RENAME.get(name, name)
        if name == "proba_norm":
            good = [[0.5], np.array([0.5])]
            bad = [[], 0.5, None, "a", np.zeros((1, 1)), [0.5, 0.5], [0.1, 0.2, 0.3]]
        if name == "n_samples":
            good = [None, 0.5, 1.0]
    i = ctx.choose(len(good) + len(bad), "value")
    D = data("univariate", [9] * 4, [0, 1, 0, 1], salt=1410)

    def make(**k):
        if model == "rdst":
            return R_DST(**k)
        if model == "ridge":
            return ridge(**k)
        from convst.transformers._input_transformers import Raw
        k.setdefault("proba_norm", [0.5])
        return ens(input_transformers=[Raw()], **k)
    if i < len(good):
        v = good[i]
        est = make(**{pname: v})
        got = est.get_params(deep=False)[pname]
        if not (is_same(got, v) or name == "n_shapelets" and got == v if np.ndim(v) == 0 else np.array_equal(np.asarray(got), np.asarray(v))):
            raise Violation("%s(%s=%r) has %r" % (model, pname, v, got))
    else:
        v = bad[i - len(good)]
        what = "%s(%s=%r)" % (model, pname, v)
        at_fit = model == "ridge" or (model == "ensemble" and name in (
            "transform_type", "percentiles", "shapelet_lengths_bounds", "lengths_bounds_reduction"))
        if at_fit:
            kw = {"n_shapelets": 1, "n_shapelets_per_estimator": 1, pname: v}
            kw.pop("n_shapelets" if model == "ensemble" else "n_shapelets_per_estimator")
            if name == "percentiles" and np.ndim(v) == 1 and len(v) == 2 and not isinstance(v, str):
                pass
            must_fail(lambda: make(**kw).fit(D.X, D.y), (Exception,), what + ".fit")
        else:
            must_fail(lambda: make(**{pname: v}), (Exception,), what)
    ctx.outcome = (i < len(good), pname)


def sizes(ctx):
    """Ensemble options whose sizes disagree."""
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram
    k = ctx.choose(5, "transformers")
    p = 1 + ctx.choose(5, "proba_norm")
    arr = ctx.bool("array")
    pn = [0.5] * p
    kw = dict(proba_norm=np.array(pn) if arr else pn)
    if k:
        kw["input_transformers"] = [(Raw, Derivate, Periodigram)[i % 3]() for i in range(k)]
    n = k or 3
    if n == p:
        est = ens(**kw)
        if len(est.input_transformers) != n:
            raise Violation("ensemble with %d members instead of %d" % (len(est.input_transformers), n))
    else:
        must_fail(lambda: ens(**kw), (ValueError,), "ensemble of %d transformers with %d normalisation probabilities" % (n, p))
    ctx.outcome = n == p


def jobs(tier):
    t = tier == "thorough"
    out = []
    for n in ((1, 2, 3, 4, 5, 7, 8, 12, 16, 32, 64, 100) if t else (1, 2, 3, 4, 7, 8, 16, 64)):
        out.append(("n_jobs %d cpus" % n, "jobs_number", dict(ncpus=[n], lo=-300 if t else -40, hi=300 if t else 40), 100))
        out.append(("ensemble threads %d cpus" % n, "ensemble_threads", dict(ncpus=[n]), 50))
    out.append(("n_jobs types", "jobs_types", {}, 5))
    for w in ("numeric", "boolean"):
        out.append((w, "helpers", dict(which=w), 1))
    for m in ("rdst", "ridge", "ensemble"):
        for name in ("transform_type", "percentiles", "shapelet_lengths_bounds", "lengths_bounds_reduction", "shapelet_lengths",
                     "phase_invariance", "normalize_output", "prime_dilations", "alpha", "proba_norm", "n_samples", "n_shapelets"):
            out.append(("construct %s %s" % (m, name), "construct", dict(model=m, name=name), 2))
    out.append(("sizes", "sizes", {}, 1))
    return out
