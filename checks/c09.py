# -*- coding: utf-8 -*-
"""C09: a fixed random_state makes results reproducible."""
import subprocess
import sys

from mc import tasks
from mc.engine import REPO, VERIF
from .fitlib import *

BOUNDS = {
    "quick": "numba's static distribution of the parallel iterations over 1-3 threads in every order, every thread being the caller's or "
             "not, 2 initial "
             "states of the per-thread and global generators, first fit / refit / refit after other fits, draws and global "
             "seeding; 4 kinds x options; ridge and ensemble predictions; ensemble members under every order and every "
             "interleaving with at most 1 preemption at every 4th (8th) line of rdst.py, rdst_ensemble.py, rdst_ridge.py and "
             "_input_transformers.py; 3 hash seeds of the interpreter in separate processes",
    "thorough": "5 random states, 1 preemption of the parallel loops, 2 preemptions of ensemble members (every second line)"}
ASSUMPTIONS = ["input transformers with random=True are excluded (they draw their own options)"]
NONDETERMINISM = True        # behaviour that differs under equal choices is what this property forbids
FILES = ("convst/transformers/rdst.py", "convst/classifiers/rdst_ensemble.py", "convst/classifiers/rdst_ridge.py",
         "convst/transformers/_input_transformers.py")
_ref = {}


def _data(kind, model="rdst"):
    if isinstance(model, tuple):
        return data(kind, [7, 8, 7, 9], ["p", "q", "p", "q"], 2, salt=91)
    n = 9
    return data(kind, [n, n + 2, n, n + 1, n + 3, n], ["p", "q", "p", "q", "p", "q"], 2, salt=91)


def _opts(which):
    return [dict(), dict(phase_invariance=True, prime_dilations=True), dict(n_samples=0.7, normalize_output=True),
            dict(n_samples=1.5, proba_norm=1.0)][which]


def _make(model, kind, seed, which):
    if model == "rdst":
        return R_DST(transform_type="auto", n_shapelets=8, shapelet_lengths=[2, 3, 5], random_state=seed, **_opts(which))
    if model == "ridge":
        from convst.classifiers import R_DST_Ridge
        return R_DST_Ridge(n_shapelets=8, shapelet_lengths=[2, 3, 5], random_state=seed, **_opts(which))
    from convst.classifiers import R_DST_Ensemble
    o = dict(_opts(which))
    if "proba_norm" in o:
        o["proba_norm"] = [1.0, 1.0, 1.0]
    return R_DST_Ensemble(n_shapelets_per_estimator=3, shapelet_lengths=[2, 3], random_state=seed, n_jobs=model[1], **o)


def _result(model, est, D):
    if model == "rdst":
        return (freeze(est.shapelets_), np.array(est.transform(D.X)))
    if model == "ridge":
        return (freeze(est.transformer.shapelets_), np.array(est.predict(D.X)), np.array(est.transformer.transform(D.X)))
    shp = tuple(freeze(m.steps[1][1].shapelets_) for m in est.models)
    return (shp, np.array(est.predict(D.X)), np.array(est.model_weights, dtype=float))


def _same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if a.dtype.kind == "f":
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True)
    return a.shape == b.shape and bool((a == b).all())


def _reference(model, kind, seed, which):
    key = (repr(model), kind, str(seed), which)
    if key not in _ref:
        D = _data(kind, model)
        saved = rt.rng, rt.sched, rt.joblib_runner
        rt.rng, rt.sched, rt.joblib_runner = rt.ThreadRNG(0), None, None
        try:
            _ref[key] = _result(model, _make(model, kind, seed, which).fit(D.X, D.y), D)
        finally:
            rt.rng, rt.sched, rt.joblib_runner = saved
    return _ref[key]


class StaticScheduler(rt.PreemptionScheduler):
    """numba's static distribution over 1..threads threads; which one runs first, second, ... is chosen once."""

    def __init__(self, ctx, threads, bound, main_is_worker):
        rt.PreemptionScheduler.__init__(self, ctx, threads, bound, main_is_worker)
        n = 1 + ctx.choose(threads, "threads")
        perms = list(itertools.permutations(range(n)))
        self.n, self.order = n, perms[ctx.choose(len(perms), "order of the threads")]

    def partitions(self, n):
        k = min(self.n, n)
        return [tuple(int(round(i * n / float(k))) for i in range(k + 1))]

    def pick(self, alive, running):
        if running is None or running not in alive:
            return [t for t in self.order if t in alive][0]
        return rt.PreemptionScheduler.pick(self, alive, running)


PAST = ["nothing", "refit", "refit on other data", "transform", "global seed", "draws", "other estimator"]


def schedules(ctx, model, kind, seeds, which, threads, bound, npast):
    seed = ctx.pick(seeds, "random_state")
    want = _reference(model, kind, seed, which)
    D = _data(kind, model)
    rng = rt.ThreadRNG(entropy=1 + ctx.choose(2, "initial generator states"))
    past = PAST[ctx.choose(npast, "past")]
    est = _make(model, kind, seed, which)
    rt.rng = rng
    try:
        if past == "refit":
            est.fit(D.X, D.y)
        elif past == "refit on other data":
            E = data(kind, [8, 7, 9, 8], [1, 0, 1, 0], 2, salt=95)
            est.fit(E.X, E.y)
        elif past == "transform":
            est.fit(D.X, D.y)
            (est.transform if model == "rdst" else est.predict)(D.X)
        elif past == "global seed":
            np.random.seed(12345)
        elif past == "draws":
            np.random.random(7)
            np.random.choice(5)
        elif past == "other estimator":
            _make(model, kind, 99, which).fit(D.X, D.y)
        who = ctx.choose(threads + 1, "caller's thread takes part as") - 1
        rt.sched = sched = StaticScheduler(ctx, threads=threads, bound=bound, main_is_worker=None if who < 0 else who)
        est.fit(D.X, D.y)
        rt.sched = None
        got = _result(model, est, D)
    finally:
        rt.rng = rt.sched = None
    if not _same(got, want):
        raise Violation("random_state=%r does not reproduce the result (%s, %s, options %s, past: %s, generators' initial state %d, "
                        "caller is worker %d): %s instead of %s" % (
                            seed, model, kind, _opts(which), past, rng.entropy, who, _brief(got), _brief(want)))
    ctx.outcome = digest(got)
    ctx.notes["results compared"] = 1


def _brief(r):
    return repr([np.asarray(a).tolist() if not isinstance(a, tuple) else [np.asarray(b).tolist() if not isinstance(b, tuple) else "..."
                                                                        for b in a][1:4] for a in r])[:900]


def ensemble(ctx, kind, seed, which, n_jobs, bound, every, predict=False):
    model = ("ensemble", n_jobs)
    want = _reference(("ensemble", 1), kind, seed, which)
    D = _data(kind, model)
    rt.rng = rt.ThreadRNG(entropy=7)
    runner = tasks.Runner(ctx, bound=bound, files=FILES, every=every)
    try:
        est = _make(model, kind, seed, which)
        if not predict:
            rt.joblib_runner = runner
        est.fit(D.X, D.y)
        rt.joblib_runner = runner if predict else None
        got = _result(model, est, D)
    finally:
        rt.rng = rt.joblib_runner = None
    if not _same(got, want):
        raise Violation("the ensemble with %d jobs differs from sequential execution under this schedule (%s, options %s): %s "
                        "instead of %s" % (n_jobs, kind, _opts(which), _brief(got), _brief(want)))
    ctx.outcome = digest(got)
    ctx.notes["preemptions"] = runner.preemptions
    ctx.notes["scheduling points"] = runner.points


CODE = """
import os, sys
sys.path.insert(0, %r)
from mc import load
from checks import c09
import hashlib
out = []
for kind in c09.KINDS:
    for model in ("rdst", "ridge", ("ensemble", 1)):
        for which in range(4):
            r = c09._reference(model, kind, 3, which)
            out.append(hashlib.md5(repr(c09.rounded(r)).encode()).hexdigest())
print("DIGEST", " ".join(out))
"""


def processes_finish(acc, st, seeds):
    st.counts["processes compared"] = len(acc["digests"])


def rounded(r):
    if isinstance(r, tuple):
        return tuple(rounded(x) for x in r)
    return np.round(r, 7).tolist() if r.dtype.kind == "f" else r.tolist()


def processes(ctx, acc, seeds):
    hs = ctx.pick(seeds, "hash seed")
    env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CODE % VERIF], env=env, cwd=VERIF, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=300, universal_newlines=True)
    line = [l for l in p.stdout.splitlines() if l.startswith("DIGEST")]
    if not line:
        raise EnvError("subprocess failed: %s" % p.stderr[-2000:])
    acc.setdefault("digests", {})[hs] = line[0]
    if len(set(acc["digests"].values())) > 1:
        a, b = [v.split()[1:] for v in list(acc["digests"].values())[-2:]]
        names = [(k, m, w) for k in KINDS for m in ("rdst", "ridge", "ensemble") for w in range(4)]
        raise Violation("two processes give different results for the same random_state: %s" % [
            names[i] for i in range(len(a)) if a[i] != b[i]][:5])
    ctx.outcome = line[0]


def numpy_ints(ctx, kind):
    """Integers of any type, and the estimator left as it was."""
    seed = ctx.pick([0, 3, 2 ** 31 - 1, 2 ** 32 - 1, np.int64(3), np.uint8(3), np.int32(3)], "random_state")
    want = _reference("rdst", kind, int(seed), 0)
    D = _data(kind)
    est = _make("rdst", kind, seed, 0)
    for i in range(3):
        got = _result("rdst", est.fit(D.X, D.y), D)
        if not _same(got, want):
            raise Violation("fit %d with random_state=%r differs: %s instead of %s" % (i + 1, seed, _brief(got), _brief(want)))
    ctx.outcome = digest(want)


def distinct(ctx, acc, model, kind):
    """Different random states must not all give the same shapelets (random_state is used at all)."""
    seed = ctx.choose(6, "random_state")
    r = _reference(model, kind, seed, 0)
    acc.setdefault("all", set()).add(repr(digest(r)))


def distinct_finish(acc, st, model, kind):
    if len(acc["all"]) == 1:
        raise Violation("six values of random_state give the same result: random_state is not used (%s, %s)" % (model, kind))


def jobs(tier):
    t = tier == "thorough"
    out = []
    seeds = [0, 1, 7, 42, 2 ** 31] if t else [0, 42]
    for q, kind in enumerate(KINDS):
        for which in range(4):
            out.append(("transformer %s %d" % (kind, which), "schedules", dict(
                model="rdst", kind=kind, seeds=seeds, which=which, threads=3, bound=1 if t else 0, npast=len(PAST)), 300))
            out.append(("ridge %s %d" % (kind, which), "schedules", dict(
                model="ridge", kind=kind, seeds=seeds[:1] if not t else seeds[:3], which=which, threads=2, bound=0, npast=len(PAST)), 200))
            ev = 8 if kind in VAR else 4
            if t or which == q:
                out.append(("ensemble fit %s %d" % (kind, which), "ensemble", dict(
                    kind=kind, seed=which, which=which, n_jobs=3, bound=1, every=1 if t else ev), 3000))
            if t or which == (q + 2) % 4:
                out.append(("ensemble two jobs %s %d" % (kind, which), "ensemble", dict(
                    kind=kind, seed=which, which=which, n_jobs=2, bound=2 if t else 1, every=2 if t else ev), 2000))
        out.append(("ensemble predict %s" % kind, "ensemble", dict(
            kind=kind, seed=1, which=2, n_jobs=3, bound=1, every=1 if t else 8, predict=True), 1000))
        out.append(("ensemble history %s" % kind, "schedules", dict(
            model=("ensemble", 1), kind=kind, seeds=seeds[1:2], which=1, threads=1, bound=0, npast=len(PAST)), 300))
        out.append(("integers %s" % kind, "numpy_ints", dict(kind=kind), 10))
        for model in ("rdst", "ridge", ("ensemble", 1)):
            out.append(("used %s %s" % (model, kind), "distinct", dict(model=model, kind=kind), 10))
    out.append(("processes", "processes", dict(seeds=[0, 1, 12345] if not t else list(range(10))), 4000))
    return out
