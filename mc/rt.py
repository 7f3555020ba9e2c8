# -*- coding: utf-8 -*-
"""Runtime shared by the environment models: who draws random numbers, and who schedules parallel loops.

Everything nondeterministic in the code under test goes through this module:
  * rt.rng    : backend of numpy.random (None = numpy's own generators)
  * rt.sched  : scheduler of numba parallel loops (None = sequential order)
  * rt.cur_thread / rt.cur_iter : the model thread and parallel iteration now executing
"""
import sys
import itertools
import threading
import zlib
import numpy as np

rng = None
sched = None
cur_thread = ("main",)
cur_iter = None          # iteration index of the enclosing parallel loop, or None
cur_region = 0           # how many parallel regions were entered so far in this execution
num_threads = None       # last value given to numba.set_num_threads
num_threads_log = []
NUMBA_NUM_THREADS = 8
joblib_runner = None      # executes the tasks of joblib.Parallel
archive = None            # (name, split) -> (X, y): the dataset archive
wilcoxon = None
friedman = None
ridge_log = None          # list receiving (event, model, X, y or decision values) of the linear models
ridge_cv = None           # (model, X, Y, index of alpha) -> leave-one-out predictions of the linear model
ridge_decide = None       # (model, X) -> decision values of the linear model


def reset():
    global ridge_log, ridge_cv, ridge_decide, rng, sched, cur_thread, cur_iter, cur_region, num_threads, joblib_runner, archive, wilcoxon, friedman
    rng = None
    sched = None
    cur_thread = ("main",)
    cur_iter = None
    cur_region = 0
    num_threads = None
    joblib_runner = archive = wilcoxon = friedman = None
    ridge_log = ridge_cv = ridge_decide = None
    del num_threads_log[:]


class PrivateUnset(object):
    def __repr__(self):
        return "<unset>"


UNSET = PrivateUnset()


# --------------------------------------------------------------------------- parallel loops
class ChunkIter(object):
    """The iterations given to one model thread, in order. Remembers the iteration being executed."""

    def __init__(self, values):
        self.values = list(values)
        self.k = 0
        self.cur = None

    def __iter__(self):
        return self

    def __next__(self):
        global cur_iter
        if self.k >= len(self.values):
            raise StopIteration
        self.cur = self.values[self.k]
        self.k += 1
        cur_iter = self.cur
        return self.cur


def run_parallel(name, values, make_body):
    """Executes one parallel loop.  make_body(iterator) -> generator executing these iterations, yielding between
    statements and returning a dict of its reduction variables."""
    global cur_thread, cur_iter, cur_region
    values = list(values)
    cur_region += 1
    saved = (cur_thread, cur_iter)
    try:
        if sched is None or saved[1] is not None:      # a nested parallel loop is sequential in numba
            chunks = [values]
            picks = None
        else:
            chunks, picks = sched.plan(name, values)
        its = [ChunkIter(c) for c in chunks]
        gens = [make_body(it) for it in its]
        results = [None] * len(gens)
        if picks is None:
            for t, g in enumerate(gens):
                if saved[1] is None:
                    cur_thread = ("main",) if sched is None else ("t", t)
                while True:
                    try:
                        next(g)
                    except StopIteration as e:
                        results[t] = e.value
                        break
        else:
            alive = list(range(len(gens)))
            running = None
            while alive:
                t = picks(alive, running)
                running = t
                cur_thread = sched.thread_id(t)
                cur_iter = its[t].cur if its[t].cur is not None else (
                    its[t].values[0] if its[t].values else -1)
                try:
                    next(gens[t])
                except StopIteration as e:
                    results[t] = e.value
                    alive.remove(t)
                    running = None
        return results
    finally:
        cur_thread, cur_iter = saved


class PreemptionScheduler(object):
    """All contiguous distributions of the iterations over at most `threads` threads, all orders of the threads, and
    all interleavings with at most `bound` preemptions.  ctx.choose makes every decision."""

    def __init__(self, ctx, threads=2, bound=1, main_is_worker=None, all_partitions=True):
        self.ctx, self.threads, self.bound = ctx, threads, bound
        self.main_is_worker = main_is_worker
        self.all_partitions = all_partitions
        self.used = 0
        self.points = 0
        self.preemptions = 0

    def partitions(self, n):
        out = []
        kmax = min(self.threads, n)
        ks = range(1, kmax + 1) if self.all_partitions else [kmax]
        for k in ks:
            for cuts in itertools.combinations(range(1, n), k - 1):
                out.append((0,) + cuts + (n,))
        return out

    def plan(self, name, values):
        n = len(values)
        if n == 0:
            return [[]], None
        parts = self.partitions(n)
        p = parts[self.ctx.choose(len(parts), "partition")] if len(parts) > 1 else parts[0]
        chunks = [values[p[i]:p[i + 1]] for i in range(len(p) - 1)]
        return chunks, self.pick

    def thread_id(self, t):
        if self.main_is_worker is not None and t == self.main_is_worker:
            return ("main",)
        return ("t", t)

    def pick(self, alive, running):
        self.points += 1
        if running is None or running not in alive:
            if len(alive) == 1:
                return alive[0]
            return alive[self.ctx.choose(len(alive), "next")]
        if len(alive) == 1 or self.used >= self.bound:
            return running
        others = [a for a in alive if a != running]
        c = self.ctx.choose(1 + len(others), "preempt")
        if c == 0:
            return running
        self.used += 1
        self.preemptions += 1
        return others[c - 1]


# --------------------------------------------------------------------------- random numbers
_orig = {}


def _fingerprint(v, depth=0):
    if isinstance(v, np.ndarray):
        return (v.shape, str(v.dtype), v.tobytes() if v.dtype != object else v.size)
    if isinstance(v, (int, float, bool, str, bytes, complex, np.generic)) or v is None:
        return repr(v)
    if isinstance(v, (list, tuple)) and depth < 4:
        return (type(v).__name__,) + tuple(_fingerprint(x, depth + 1) for x in v)
    if isinstance(v, dict) and depth < 4:
        return ("dict",) + tuple((repr(k), _fingerprint(x, depth + 1)) for k, x in v.items())
    if isinstance(v, (set, frozenset, range, slice)):
        return repr(sorted(v, key=repr) if isinstance(v, (set, frozenset)) else v)
    if isinstance(v, ChunkIter):
        return v.k
    if callable(v) or type(v).__name__ == "module":
        return id(v)
    if isinstance(v, np.random.RandomState):
        return (id(v),) + tuple(_fingerprint(x) for x in v.get_state())
    if hasattr(v, "__dict__") and depth < 4:
        return (id(v), _fingerprint(vars(v), depth + 1))
    return object()          # state we cannot compare: never equal


def _repo_frames(frame):
    """The frames of the code under test that lead to this call, innermost first."""
    from mc.load import REPO
    out = []
    while frame is not None and len(out) < 6:
        fn = frame.f_code.co_filename
        if fn.startswith(REPO) or fn.startswith("<parfor"):
            out.append(frame)
        elif out and not fn.startswith(_HERE):
            break
        frame = frame.f_back
    return out


_HERE = __file__.rsplit("/", 1)[0]


class ChoiceRNG(object):
    """Every draw is a choice point of the explorer; continuous draws take a small menu of values.

    A loop that draws until the value suits it would have infinitely many executions: when a draw is reached again in a
    state already met (same position, same local variables in every frame of the code under test), every continuation has
    been explored from the earlier visit, and the execution is pruned.  When no draw in between had an alternative the
    code can never leave the loop, which is reported as a hang."""
    ALMOST1 = 1.0 - 2.0 ** -20
    last_site = None
    repeats = 0
    last_print = None
    widths = 0

    def visit(self, frame):
        site = (frame.f_code, frame.f_lineno)
        if site != self.last_site:
            self.last_site, self.repeats, self.last_print = site, 0, None
            return
        self.repeats += 1
        fp = tuple((f.f_code.co_name, f.f_lineno, tuple((k, _fingerprint(v)) for k, v in sorted(f.f_locals.items())))
                   for f in _repo_frames(frame))
        here = len(self.ctx.path)
        if self.last_print is not None and fp == self.last_print:
            from mc.engine import Hang, Prune
            if here == self.widths:
                raise Hang("the same draw is repeated for ever in the same state")
            raise Prune()
        self.last_print, self.widths = fp, here

    def __init__(self, ctx, unit_menu=(0.0, ALMOST1), uniform_menu=(0.0, 0.5, ALMOST1), big=4096):
        self.ctx = ctx
        self.unit_menu = unit_menu
        self.uniform_menu = uniform_menu
        self.big = big
        self.fresh = 0
        self.draws = 0

    def seed(self, *a, **k):
        return None

    def _unit(self, label):
        self.draws += 1
        m = self.unit_menu
        return m[self.ctx.choose(len(m), label)] if len(m) > 1 else m[0]

    def random(self, size=None):
        if size is None:
            return self._unit("random")
        out = np.empty(size, dtype=float)
        for i in range(out.size):
            out.flat[i] = self._unit("random")
        return out

    def uniform(self, low=0.0, high=1.0, size=None):
        def one(lo, hi):
            self.draws += 1
            if not (hi > lo):
                return lo + (hi - lo) * 0.0 if not np.isnan(hi - lo) else np.nan
            m = self.uniform_menu
            u = m[self.ctx.choose(len(m), "uniform")] if len(m) > 1 else m[0]
            return lo + (hi - lo) * u
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return one(low, high)
        shape = size if size is not None else np.broadcast(low, high).shape
        lo, hi = np.broadcast_to(low, shape), np.broadcast_to(high, shape)
        out = np.empty(shape)
        for i in range(out.size):
            out.flat[i] = one(lo.flat[i], hi.flat[i])
        return out

    def _index(self, n, label):
        self.draws += 1
        if n <= 0:
            raise ValueError("a must be non-empty")
        if n > self.big:                    # opaque draw (a seed, say): one representative
            self.fresh += 1
            return (self.fresh * 7919) % n
        return self.ctx.choose(n, label) if n > 1 else 0

    def choice(self, a, size=None, replace=True, p=None):
        arr = None if np.ndim(a) == 0 else np.asarray(a)
        n = int(a) if arr is None else arr.shape[0]
        if p is not None:
            support = [i for i in range(n) if p[i] > 0]
        else:
            support = None

        def pick(pool, label="choice"):
            return pool[self._index(len(pool), label)]
        if size is None:
            if arr is not None and arr.ndim == 1 and support is None and n > 1:
                vals = np.unique(arr)            # drawing either of two equal values leads to the same state
                return vals[self._index(len(vals), "choice")]
            i = pick(support) if support is not None else self._index(n, "choice")
            return i if arr is None else arr[i]
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        cnt = int(np.prod(shape)) if len(shape) else 1
        if replace:
            idx = [pick(support) if support is not None else self._index(n, "choice") for _ in range(cnt)]
        else:
            if cnt > n:
                raise ValueError("Cannot take a larger sample than population when replace is False")
            pool = list(support) if support is not None else list(range(n))
            idx = []
            for _ in range(cnt):
                j = self._index(len(pool), "choice")
                idx.append(pool.pop(j))
        idx = np.asarray(idx, dtype=np.int64).reshape(shape)
        return idx if arr is None else arr[idx]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low)
        if size is None:
            return low + self._index(n, "randint")
        out = np.empty(size, dtype=dtype)
        for i in range(out.size):
            out.flat[i] = low + self._index(n, "randint")
        return out

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        self.shuffle(arr)
        return arr

    def shuffle(self, x):
        n = len(x)
        pool = list(range(n))
        order = [pool.pop(self._index(len(pool), "shuffle")) for _ in range(n)]
        vals = [x[i] if np.ndim(x) == 1 else np.copy(x[i]) for i in order]
        for i in range(n):
            x[i] = vals[i]


class StateRNG(object):
    """Base of the backends that draw from one RandomState per key, as numba draws from one state per thread."""

    def state(self):
        raise NotImplementedError

    def seed(self, s=None):
        raise NotImplementedError

    def __getattr__(self, name):
        return getattr(self.state(), name)


class ThreadRNG(StateRNG):
    """numba's model: compiled code draws from one generator per thread, and seed() called there concerns only the calling
    thread; Python code draws from numpy's global generator.  Generators nobody seeded start from `entropy`."""
    by_caller = True

    def __init__(self, entropy=0, states=None):
        self.entropy = entropy
        self.states = {} if states is None else states
        self.unseeded = 0

    def key(self):
        return ("numba",) + tuple(cur_thread) if in_jit() else ("numpy global",)

    def state(self):
        k = self.key()
        if k not in self.states:
            self.unseeded += 1
            self.states[k] = np.random.RandomState(zlib.crc32(repr((self.entropy, k)).encode()))
        return self.states[k]

    def seed(self, s=None):
        self.states[self.key()] = np.random.RandomState(int(s) % (2 ** 32))


JIT_CODE = set()
_thread_local = threading.local()


def in_jit():
    return getattr(_thread_local, "jit", False)


class IterRNG(StateRNG):
    """Draws are a function of (parallel region, iteration, position in the iteration): 'the same random draws per
    iteration' under every schedule."""

    def __init__(self, base=0):
        self.base = base
        self.states = {}

    def key(self):
        return (cur_region, -1 if cur_iter is None else int(cur_iter)) if cur_iter is not None else (0, -1)

    def state(self):
        k = self.key()
        if k not in self.states:
            self.states[k] = np.random.RandomState((self.base * 1000003 + (k[0] * 101 + k[1] + 1) * 7919) % (2 ** 31))
        return self.states[k]

    def seed(self, s=None):
        k = self.key()
        self.states[k] = np.random.RandomState((int(s) + self.base) % (2 ** 32))


_names = ["choice", "uniform", "random", "seed", "randint", "permutation", "shuffle"]
_alias = {"rand": None, "random_sample": "random", "sample": "random", "ranf": "random"}


def _wrap(name):
    real = _orig[name]

    def f(*a, **k):
        if rng is None:
            return real(*a, **k)
        if getattr(rng, "by_caller", False):
            code = sys._getframe(1).f_code
            _thread_local.jit = code in JIT_CODE or code.co_filename.startswith("<parfor")
        if isinstance(rng, ChoiceRNG):
            rng.visit(sys._getframe(1))
        return getattr(rng, name)(*a, **k)
    f.__name__ = name
    return f


def install():
    """Patch numpy.random (and aliases numpy 2 removed) before the code under test is imported."""
    if _orig:
        return
    for n in _names + list(_alias):
        if hasattr(np.random, n):
            _orig[n] = getattr(np.random, n)
    for n in _names:
        setattr(np.random, n, _wrap(n))

    def rand(*shape):
        if rng is None:
            return _orig["rand"](*shape)
        if getattr(rng, "by_caller", False):
            code = sys._getframe(1).f_code
            _thread_local.jit = code in JIT_CODE or code.co_filename.startswith("<parfor")
        if isinstance(rng, ChoiceRNG):
            rng.visit(sys._getframe(1))
        return rng.random(shape if shape else None)

    np.random.rand = rand

    # uninitialised memory is never relied upon: arrays start with conspicuous values
    empty, empty_like = np.empty, np.empty_like

    def poison(a):
        if type(a) is np.ndarray and a.size and a.dtype.kind in "fciub":
            if a.dtype.kind in "fc":
                a.fill(np.nan)
            elif a.dtype.kind == "b":
                a[...] = (np.arange(a.size) % 2 == 0).reshape(a.shape)
            else:
                a.fill(101)
        return a

    def new_empty(*args, **kwargs):
        return poison(empty(*args, **kwargs))

    def new_empty_like(*args, **kwargs):
        return poison(empty_like(*args, **kwargs))
    np.empty, np.empty_like = new_empty, new_empty_like
    for al, tgt in _alias.items():
        if tgt and hasattr(np.random, al):
            setattr(np.random, al, getattr(np.random, tgt))
    for al, tgt in (("float_", np.float64), ("complex_", np.complex128), ("unicode_", np.str_),
                    ("string_", np.bytes_), ("Inf", np.inf), ("NaN", np.nan), ("infty", np.inf),
                    ("alltrue", np.all), ("sometrue", np.any), ("product", np.prod), ("cumproduct", np.cumprod),
                    ("in1d", getattr(np, "isin")), ("row_stack", np.vstack)):
        if al not in np.__dict__:
            try:
                setattr(np, al, tgt)
            except Exception:
                pass
