# -*- coding: utf-8 -*-
"""Stateless depth-first explorer of choice trees over the real code.

A job is a function job(ctx, **kw) that builds one execution; every nondeterministic decision (input, random draw,
environment answer, schedule, operation) is ctx.choose(n) / ctx.pick(list).  The explorer runs the job for every sequence
of choices.  A job reports a broken property with Violation.  Any exception escaping from the code under test is a violation
too; an exception of the environment models themselves (missing feature, import error) is an error of the check (exit 2)."""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CONVST_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


class Violation(Exception):
    def __init__(self, msg, key=None, **data):
        Exception.__init__(self, msg)
        self.msg, self.key, self.data = msg, key, data


class EnvError(Exception):
    """The environment model cannot express what the code asks for: error of the check."""


class Hang(Exception):
    pass


class Divergence(Exception):
    pass


class Prune(Exception):
    """This execution adds nothing (symmetric to another one): count it, check nothing."""


class Ctx(object):
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.path = []
        self.width = []
        self.labels = []
        self.notes = {}
        self.outcome = None

    def choose(self, n, label=""):
        if n <= 0:
            raise EnvError("choose(%d)" % n)
        i = len(self.path)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence("choice %d of %d at point %d (%s)" % (c, n, i, label))
        else:
            c = 0
        self.path.append(c)
        self.width.append(n)
        self.labels.append(label)
        return c

    def pick(self, seq, label=""):
        return seq[self.choose(len(seq), label)] if len(seq) > 1 else seq[0]

    def bool(self, label=""):
        return bool(self.choose(2, label))


class Stats(object):
    def __init__(self):
        self.executions = self.states = self.transitions = self.choice_points = 0
        self.outcomes = set()
        self.max_depth = 0
        self.slowest = 0.0
        self.capped = False
        self.counts = {}
        self.samples = []
        self.sets = {}

    def merge(self, o):
        self.executions += o.executions
        self.states += o.states
        self.transitions += o.transitions
        self.choice_points += o.choice_points
        self.outcomes |= o.outcomes
        self.max_depth = max(self.max_depth, o.max_depth)
        self.slowest = max(self.slowest, o.slowest)
        self.capped |= o.capped
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        if len(self.samples) < 6:
            self.samples += o.samples[:2]


ALARM = int(os.environ.get("VERIF_EXEC_LIMIT", "100"))


_start = [0.0, 0.0]


def _alarm(sig, frm):
    """On a loaded machine the limit counts processor time, up to three times the limit of elapsed time."""
    cpu, wall = time.process_time() - _start[0], time.monotonic() - _start[1]
    if cpu < 0.9 * ALARM and wall < 3 * ALARM:
        signal.alarm(max(1, int(ALARM - cpu)))
        return
    raise Hang("no result after %d s" % ALARM)


def _in_repo(tb):
    base = os.path.join(os.path.realpath(REPO), "convst")
    fr = [f.filename for f in traceback.extract_tb(tb)]
    return any(os.path.realpath(f).startswith(base) or f.startswith("<parfor") for f in fr)


def _env_failure(e, tb):
    """Is this exception due to our environment models rather than to the code under test?"""
    if isinstance(e, (EnvError, ImportError)):
        return True
    if isinstance(e, AttributeError) and str(e).startswith("module '"):
        return True
    frames = traceback.extract_tb(tb)
    last = frames[-1].filename if frames else ""
    if isinstance(e, (NotImplementedError, AttributeError)) and os.path.realpath(last).startswith(
            os.path.join(VERIF, "mc", "envs")):
        return True
    if isinstance(e, TypeError) and "unexpected keyword argument" in str(e):
        return not _in_repo_last(frames) and any(x in str(e) for x in ENV_NAMES)
    return False


ENV_NAMES = ("RidgeClassifierCV", "StandardScaler", "MinMaxScaler", "Parallel", "Pipeline", "make_pipeline", "resample",
             "choice", "uniform", "random", "accuracy_score", "make_scorer", "njit")


def _in_repo_last(frames):
    return False


def run_once(job, kw, prefix):
    """One execution.  Returns (ctx, violation or None)."""
    from mc import rt
    ctx = Ctx(prefix)
    rt.reset()
    signal.signal(signal.SIGALRM, _alarm)
    _start[:] = time.process_time(), time.monotonic()
    signal.alarm(ALARM)
    viol = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            job(ctx, **kw)
    except Prune:
        ctx.notes["pruned"] = 1
    except Violation as e:
        viol = e
    except Divergence:
        raise
    except Hang as e:
        viol = Violation("the call did not return: %s" % e)
    except MemoryError:
        raise
    except Exception as e:
        tb = e.__traceback__
        if _env_failure(e, tb):
            raise EnvError("%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(tb)[-4:])))
        where = traceback.extract_tb(tb)[-1]
        viol = Violation("unexpected %s: %s (%s:%s)" % (type(e).__name__, str(e)[:300], os.path.basename(where.filename),
                                                       where.name),
                         in_repo=_in_repo(tb), tb="".join(traceback.format_tb(tb)[-6:]))
    finally:
        signal.alarm(0)
        rt.reset()
    return ctx, viol


def explore(job, kw, name, stats, cap=None, t_end=None, known=None, on_exec=None, prefix0=()):
    """Depth-first search.  Returns the first violation (with its path) or None."""
    prefix = list(prefix0)
    fixed = len(prefix)
    new_from = 0
    while True:
        t0 = time.process_time()
        ctx, viol = run_once(job, kw, prefix)
        stats.slowest = max(stats.slowest, time.process_time() - t0)
        stats.executions += 1
        stats.states += len(ctx.path) - new_from + 1          # nodes of the tree first reached by this execution
        stats.transitions += max(1, len(ctx.path) - new_from)
        stats.choice_points += len(ctx.path)
        stats.max_depth = max(stats.max_depth, len(ctx.path))
        if ctx.outcome is not None:
            stats.outcomes.add(hashlib.md5(repr(ctx.outcome).encode()).hexdigest()[:16])
        for k, v in ctx.notes.items():
            if isinstance(v, (int, float)):
                stats.counts[k] = stats.counts.get(k, 0) + v
        if stats.executions in (1, 17):
            stats.samples.append({"job": name, "params": _js(kw), "choices": ctx.path[:60],
                                  "labels": ctx.labels[:12], "outcome": repr(ctx.outcome)[:300]})
        if viol is not None:
            if known is not None and viol.key is not None and viol.key in known:
                stats.counts["known:" + viol.key] = stats.counts.get("known:" + viol.key, 0) + 1
            else:
                return ctx, viol
        if on_exec is not None:
            on_exec(ctx)
        # next leaf
        path, width = ctx.path, ctx.width
        i = len(path) - 1
        while i >= fixed and path[i] + 1 >= width[i]:
            i -= 1
        if i < fixed:
            return None
        if (cap and stats.executions >= cap) or (t_end and time.time() > t_end):
            stats.capped = True
            return None
        prefix = path[:i] + [path[i] + 1]
        new_from = i


def _js(o):
    if isinstance(o, dict):
        return {str(k): _js(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_js(v) for v in o]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if hasattr(o, "tolist"):
        return _js(o.tolist())
    return repr(o)


# --------------------------------------------------------------------------- checks
class Check(object):
    """A property's check: build(tier) -> list of (job name, function name, kwargs).  Functions live in the module."""

    def __init__(self, pid, module):
        self.pid, self.module = pid, module


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _run_job(args):
    modname, jname, fname, kw, cap, budget, known = args
    import importlib
    mod = importlib.import_module(modname)
    st = Stats()
    t0 = time.time()
    out = {"job": jname, "viol": None, "error": None}
    try:
        fn = getattr(mod, fname)
        finish = getattr(mod, fname + "_finish", None)
        acc = {}
        if finish is not None:
            kw2 = dict(kw, acc=acc)
        else:
            kw2 = kw
        r = explore(fn, kw2, jname, st, cap=cap, t_end=t0 + budget if budget else None, known=known)
        if r is None and finish is not None:
            try:
                finish(acc, st, **kw)
            except Violation as e:
                r = (Ctx(), e)
                out["aggregate"] = True
        if r is not None:
            ctx, v = r
            out["viol"] = {"msg": v.msg, "key": v.key, "data": _js(v.data), "path": ctx.path, "labels": ctx.labels}
    except Divergence as e:
        out["error"] = "replay divergence (uncaptured nondeterminism): %s" % e
        if getattr(mod, "NONDETERMINISM", False):
            out["error"] = None
            out["aggregate"] = True
            out["viol"] = {"msg": "the same inputs, draws and schedule lead to different behaviour: %s" % e, "key": "nondet",
                           "data": None, "path": [], "labels": []}
    except EnvError as e:
        out["error"] = "environment: %s" % e
    except Exception as e:
        out["error"] = "harness: %s" % traceback.format_exc()
    out["wall"] = time.time() - t0
    return out, st


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    out = {}
    if os.path.exists(path):
        for e in json.load(open(path)).get("findings", []):
            if e["property"] == pid:
                out[e["key"]] = e
    return out


def run_check(pid, mod, replay=None):
    t0 = time.time()
    modname = mod.__name__
    known = load_known(pid)
    jobs = mod.jobs(TIER)
    names = [j[0] for j in jobs]
    assert len(set(names)) == len(names), "duplicate job names"
    if replay:
        r = json.load(open(replay))
        j = [x for x in jobs if x[0] == r["job"]] or [x for x in mod.jobs("thorough") if x[0] == r["job"]]
        if not j:
            print("no such job %s" % r["job"])
            return 2
        kw = j[0][2]
        if r.get("aggregate"):
            out, st = _run_job((modname,) + tuple(j[0][:3]) + (None, None, set(known)))
            ok = out["viol"] is None
            msg = None if ok else out["viol"]["msg"]
        else:
            fin = getattr(mod, j[0][1] + "_finish", None)
            ctx, v = run_once(getattr(mod, j[0][1]), dict(kw, acc={}) if fin else kw, r["choices"])
            ok, msg = v is None, None if v is None else v.msg
        if ok:
            print("replay: the property held on %s" % replay)
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 3600})[TIER]
    cap = getattr(mod, "CAP", {"quick": 400000, "thorough": 20000000})[TIER]
    total = Stats()
    per_job = []
    viol = None
    errors = []
    order = sorted(range(len(jobs)), key=lambda i: -(jobs[i][3] if len(jobs[i]) > 3 else 1))
    args = [(modname,) + tuple(jobs[i][:3]) + (cap, budget, set(known)) for i in order]
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    if nproc == 1 or len(args) == 1:
        it = map(_run_job, args)
        pool = None
    else:
        ctxmp = mp.get_context("fork")
        pool = ctxmp.Pool(min(nproc, len(args)), initializer=_worker_init)
        it = pool.imap_unordered(_run_job, args)
    try:
        for out, st in it:
            total.merge(st)
            per_job.append((out["job"], st.executions, st.states, round(out["wall"], 2), st.capped, len(st.outcomes)))
            if out["error"]:
                errors.append((out["job"], out["error"]))
            elif out["viol"] and viol is None:
                viol = dict(out["viol"], job=out["job"], aggregate=out.get("aggregate", False))
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    rc = 0
    replay_path = None
    if viol:
        if not viol["aggregate"]:
            j = [x for x in jobs if x[0] == viol["job"]][0]
            fin = getattr(mod, j[1] + "_finish", None)
            viol_ok = getattr(mod, "NONDETERMINISM", False)
            for _ in range(5):      # a single hidden source of nondeterminism in the code must not hide a violation
                try:
                    ctx2, v2 = run_once(getattr(mod, j[1]), dict(j[2], acc={}) if fin else j[2], viol["path"])
                except Divergence:
                    v2 = None
                if v2 is not None:
                    viol_ok = True
                    break
                viol["msg"] += " [did not repeat on replay]" if viol_ok and "did not repeat" not in viol["msg"] else ""
            if not viol_ok:
                errors.append((viol["job"], "violation did not repeat on replay: %s" % viol["msg"]))
        else:
            viol_ok = True
        if viol_ok:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            replay_path = os.path.join(VERIF, "replays", "%s.json" % pid)
            with open(replay_path, "w") as f:
                json.dump({"property": pid, "job": viol["job"], "choices": viol["path"], "labels": viol["labels"],
                           "message": viol["msg"], "data": viol["data"], "aggregate": viol["aggregate"],
                           "tier": TIER, "seed": SEED}, f, indent=1)
            rc = 1
    if errors and rc == 0:
        rc = 2
    from mc import parfor
    cov = {
        "states": total.states, "transitions": total.transitions,
        "traces_validated_against_impl": total.executions,
        "exhaustive": (not total.capped) and rc == 0,
        "executions": total.executions,
        "distinct_outcomes": len(total.outcomes),
        "max_depth": total.max_depth, "slowest_execution_cpu_s": round(total.slowest, 2),
        "jobs": [dict(zip(("job", "executions", "states", "wall_s", "capped", "distinct_outcomes"), x))
                 for x in sorted(per_job)][:80],
        "counters": total.counts,
        "capped_jobs": [x[0] for x in per_job if x[4]],
        "bounds": getattr(mod, "BOUNDS", {}).get(TIER, "") if isinstance(getattr(mod, "BOUNDS", ""), dict)
        else getattr(mod, "BOUNDS", ""),
        "samples": total.samples[:6],
        "rule": "states = nodes of the choice tree (inputs x draws x environment answers x schedules x operations) "
                "reached; transitions = its edges; every leaf is one execution of the real code compared with the "
                "reference model (traces_validated_against_impl)",
    }
    if parfor.FAILED:
        cov["parallel_functions_not_rewritten"] = [list(x) for x in parfor.FAILED]
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "numba, scikit-learn, joblib, aeon and the plotting packages are replaced by the models in /verif/mc/envs*; "
              "jitted functions run as Python"],
          "wall_s": round(time.time() - t0, 3), "violations": 1 if rc == 1 else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        n = total.counts.get("known:" + k, 0)
        if n:
            print("KNOWN-FINDING: property=%s %s (%d executions)" % (pid, known[k]["what"], n))
    for j, e in errors[:3]:
        print("ERROR in job %s: %s" % (j, e))
    print("%s %s: %d executions, %d states, %d transitions, %d distinct outcomes, depth<=%d, %s, %.1f s" % (
        pid, TIER, total.executions, total.states, total.transitions, len(total.outcomes), total.max_depth,
        "capped: %s" % [x[0] for x in per_job if x[4]] if total.capped else "exhaustive within bounds",
        time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for x in sorted(per_job, key=lambda x: -x[3])[:25]:
            print("   ", x)
    if rc == 1:
        print("%s: %s" % (viol["job"], viol["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, replay_path))
    return rc
