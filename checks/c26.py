# -*- coding: utf-8 -*-
"""C26: low-level helpers match their definitions on every input."""
from .fitlib import *

BOUNDS = {
    "quick": "all matrices over {0,1,2} up to 3x3, over {0,1} up to 4x3 and 3x4 (both axes, int/float, C/Fortran/views); lines "
             "and reductions of up to 260 values with one deviating value at every position; all integers up to "
             "5000 (primes); all (n <= 9, length, dilation, phase, normalise) shapes and all starts; all pairs of length <= 4 over {1,2,3}; "
             "all values over {0,1,2} for distances of length <= 4",
    "thorough": "matrices over {0,1,2} up to 4x3, integers up to 20000, n <= 14"}


def commons():
    from convst.transformers import _commons as c
    return c


def overloaded_all(ndim, axis):
    """The implementation numba would select for np.all, through the registered overload."""
    from numba import types
    from numba.extending import OVERLOADS
    f = [g for t, g in OVERLOADS if t is np.all or getattr(t, "__name__", "") in ("all", "_overloaded_all")]
    if not f:
        return None
    return f[-1](types.Array(ndim), types.none if axis is None else types.Integer())


class numba_all(object):
    """np.all inside compiled code is the overload's implementation."""

    def __enter__(self):
        self.saved = np.all

        def nb_all(x, axis=None):
            impl = overloaded_all(np.ndim(x), axis)
            np.all = self.saved
            try:
                return impl(x, axis) if impl is not None else self.saved(x, axis=axis)
            finally:
                np.all = nb_all
        if overloaded_all(2, 1) is not None:
            np.all = nb_all

    def __exit__(self, *a):
        np.all = self.saved


def matrix(ctx, rows, cols, alphabet):
    return np.array([ctx.pick(alphabet, "value") for _ in range(rows * cols)]).reshape(rows, cols)


def laid_out(M, form):
    if form == "float":
        return M * 0.5 - 0.25
    if form == "fortran":
        return np.asfortranarray(M)
    if form == "view":
        return np.repeat(np.repeat(M, 2, axis=0), 2, axis=1)[::2, ::2]
    return M


def unique_rows(ctx, rows, cols, alphabet):
    from convst.utils.numba_utils import nb_unique
    M = matrix(ctx, rows, cols, alphabet)
    form = ["int", "float", "fortran", "view"][int(M.sum()) % 4]
    for axis in (0, 1):
        A = laid_out(M, form)
        keep = A.copy()
        for env in (True, False):
            if env:
                with numba_all():
                    got = nb_unique(A, axis) if axis or int(M.sum()) % 2 else nb_unique(A)
            else:
                got = nb_unique(A, axis=axis)
            R = [tuple(r) for r in (keep if axis == 0 else keep.T).tolist()]
            want = sorted(set(R))
            u, i, c = [np.asarray(v) for v in got]
            if [tuple(r) for r in u.tolist()] != want:
                raise Violation("distinct %s of %s: %s instead of %s" % ("columns" if axis else "rows", keep.tolist(), u.tolist(), want))
            if [int(v) for v in i] != [R.index(r) for r in want]:
                raise Violation("first indices of the distinct %s of %s: %s instead of %s" % (
                    "columns" if axis else "rows", keep.tolist(), i.tolist(), [R.index(r) for r in want]))
            if [int(v) for v in c] != [R.count(r) for r in want]:
                raise Violation("occurrences of the distinct %s of %s: %s instead of %s" % (
                    "columns" if axis else "rows", keep.tolist(), c.tolist(), [R.count(r) for r in want]))
            if (A != keep).any():
                raise Violation("nb_unique modified %s" % keep.tolist())
    ctx.outcome = (len(set(map(tuple, M.tolist()))), rows, cols)


def all_matrix(ctx, rows, cols):
    """The np.all given to numba against numpy's, for booleans and numbers."""
    M = matrix(ctx, rows, cols, (0, 1)).astype(bool)
    for A in (M, M.astype(float), M.astype(np.int64) * 3):
        for axis in (None, 0, 1):
            impl = overloaded_all(2, axis)
            if impl is None:
                raise Prune()
            got, want = impl(A.copy(), axis), np.all(A, axis=axis)
            if np.shape(got) != np.shape(want) or not np.array_equal(np.asarray(got, dtype=bool), want):
                raise Violation("np.all(%s, axis=%s) gives %s" % (A.tolist(), axis, np.asarray(got).tolist()))
    if rows == 1:
        for axis in (None, 0):
            got = overloaded_all(1, axis)(M[0].copy(), axis)
            if bool(got) != bool(M[0].all()):
                raise Violation("np.all(%s) gives %s" % (M[0].tolist(), got))
    ctx.outcome = M.all()


def long_inputs(ctx, n):
    """One deviating value anywhere in a long input."""
    from convst.utils.numba_utils import nb_unique
    p = ctx.choose(n, "position")
    v = np.ones(n, dtype=bool)
    v[p] = False
    for A, axis, want in ((v, None, False), (v, 0, False), (~v, 0, n == 1), (np.array([v, v | True]), 1, [False, True]),
                          (np.array([v, v | True]).T, 0, [False, True]), (np.array([v, v | True]), 0, v)):
        impl = overloaded_all(A.ndim, axis)
        if impl is None:
            continue
        got = impl(A.copy(), axis)
        if not np.array_equal(np.asarray(got, dtype=bool), want):
            raise Violation("np.all of %s (axis %s) gives %s with the deviating value at %d" % (A.shape, axis, np.asarray(got).tolist(), p))
    M = np.ones((3, n))
    M[1, p] = 2
    with numba_all():
        for A, axis in ((M, 0), (M.T, 1)):
            u, i, c = nb_unique(A, axis=axis)
            if len(u) != 2 or list(i) != [0, 1] or list(c) != [2, 1]:
                raise Violation("distinct lines of length %d differing at %d: first indices %s, occurrences %s" % (n, p, list(i), list(c)))
        col = (np.arange(n)[:, None] != p).astype(float)
        u, i, c = nb_unique(col, axis=0)
        if n > 1 and (u.ravel().tolist() != [0, 1] or list(i) != [p, 0 if p else 1] or list(c) != [1, n - 1]):
            raise Violation("distinct rows of %d values, 0 at %d: %s, first %s, occurrences %s" % (n, p, u.tolist(), list(i), list(c)))
    ctx.outcome = p


def primes(ctx, lo, hi):
    c = commons()
    n = lo + ctx.choose(hi - lo, "n")
    want = [k for k in range(1, n + 1) if _prime(k)]
    got = np.asarray(c.prime_up_to(n))
    if got.tolist() != want:
        raise Violation("primes up to %d: %s instead of %s" % (n, got.tolist(), want))
    if n >= 1 and bool(c.is_prime(n)) != _prime(n):
        raise Violation("is_prime(%d) is %s" % (n, c.is_prime(n)))
    ctx.outcome = len(want)


def big_primes(ctx, lo, hi):
    n = lo + ctx.choose(hi - lo, "n")
    if bool(commons().is_prime(n)) != _prime(n):
        raise Violation("is_prime(%d) is %s" % (n, commons().is_prime(n)))
    ctx.outcome = _prime(n)


_sieve = None


def _prime(n):
    global _sieve
    if _sieve is None:
        s = np.ones(1000100, dtype=bool)
        s[0] = False
        for k in range(2, 1001):
            if s[k]:
                s[2 * k::k] = False
        _sieve = s
    return bool(_sieve[n])


def choice_log(ctx, nmax):
    """Every outcome of the draws is an index, and every index can come out."""
    c = commons()
    n = 1 + ctx.choose(nmax, "choices")
    k = 1 + ctx.choose(2, "samples")
    w = np.array([2.0 ** -np.log(i) for i in range(1, n + 1)])
    cum = w.cumsum() / w.sum()
    mids = tuple(((np.concatenate([[0], cum[:-1]]) + cum) / 2).tolist())
    menu = (0.0, 1.0 - 2.0 ** -53) + mids
    for u in menu:
        rt.rng = rt.ChoiceRNG(ctx, unit_menu=(u,))
        got = np.asarray(c.choice_log(n, k))
        rt.rng = None
        if got.shape != (k,) or got.dtype.kind not in "iu" or (got < 0).any() or (got >= n).any():
            raise Violation("choice_log(%d, %d) gives %s" % (n, k, got.tolist()))
    seen = set()
    for u in mids:
        rt.rng = rt.ChoiceRNG(ctx, unit_menu=(u,))
        seen |= set(np.asarray(c.choice_log(n, 1)).tolist())
        rt.rng = None
    if seen != set(range(n)):
        raise Violation("choice_log(%d, .) never gives %s" % (n, sorted(set(range(n)) - seen)))
    ctx.outcome = n


def windows_(ctx, n, kind):
    """Generators, extraction and distance vectors against one another and direct indexing."""
    c = commons()
    l, d = ctx.pick(shapes(n) + ([(1, 1)] if n > 1 else []), "shape")
    phase = ctx.bool("phase")
    form = ctx.pick(["C", "view", "int", "reversed"], "layout")
    nch = 1 + ctx.choose(3, "channels")
    X = np.round(gen(nch, n, salt=2600) * 8)
    if form == "int":
        X = X.astype(np.int64)
    elif form == "view":
        X = np.repeat(X, 2, axis=1)[:, ::2]
    elif form == "reversed":
        X = np.ascontiguousarray(X[:, ::-1])[:, ::-1]
    keep = X.copy()
    W = [windows(keep[k], l, d, phase) for k in range(nch)]
    what = "n=%d, length=%d, dilation=%d, phase=%s, %s" % (n, l, d, phase, form)
    if kind == "strides":
        for k in range(nch):
            got = np.asarray(c.generate_strides_1D(X[k], l, d, phase))
            if got.shape != W[k].shape or (got != W[k]).any():
                raise Violation("windows of %s (%s): %s" % (keep[k].tolist(), what, got.tolist()))
        got = np.asarray(c.generate_strides_2D(X, l, d, phase))
        if got.shape != (nch,) + W[0].shape or (got != np.array(W)).any():
            raise Violation("windows of %s (%s): %s" % (keep.tolist(), what, got.tolist()))
        # fresh memory: writing into the windows does not reach the series
        got[...] = 99
        for off in (1e6, -2e7):
            v = np.asarray(c.get_subsequence(X[0] + off, 0, l, d, True, phase))
            if not np.allclose(v, znorm(W[0][0] + off), rtol=1e-6, atol=1e-6):
                raise Violation("normalised subsequence at 0 of %s%+g (%s): %s instead of %s" % (
                    keep[0].tolist(), off, what, v.tolist(), znorm(W[0][0]).tolist()))
        for norm in (False, True):
            for k in range(nch):
                for i in range(len(W[k])):
                    v = np.asarray(c.get_subsequence(X[k], i, l, d, norm, phase))
                    ref = znorm(W[k][i]) if norm else W[k][i]
                    if v.shape != ref.shape or not np.allclose(v, ref, rtol=1e-9, atol=1e-9):
                        raise Violation("subsequence at %d of %s (%s, normalised: %s): %s instead of %s" % (
                            i, keep[k].tolist(), what, norm, v.tolist(), ref.tolist()))
                    v[...] = 99
    else:
        for norm in (False, True):
            for vals in ([W[0][0], gen(l, salt=2610 + l), np.zeros(l)] if not norm else [znorm(W[0][-1]), gen(l, salt=2611 + l)]):
                for x in X:
                    for v in (vals, np.concatenate([vals, [7.0, -3.0]])[:l]):
                        got = np.asarray(c.compute_shapelet_dist_vector(x, v, l, d, norm, phase))
                        ref = profile([x], [v[:l]], d, norm, phase)
                        if got.shape != ref.shape or not np.allclose(got, ref, rtol=1e-9, atol=1e-9):
                            raise Violation("distance vector of %s to %s (%s, normalised: %s): %s instead of %s" % (
                                v.tolist(), x.tolist(), what, norm, got.tolist(), ref.tolist()))
    if (X != keep).any():
        raise Violation("the series %s was modified (%s)" % (keep.tolist(), what))
    ctx.outcome = (len(W[0]), l)


def distances(ctx, n):
    c = commons()
    x = np.array([ctx.pick((0, 1, 2.5), "x") for _ in range(n)], dtype=float)
    y = np.array([ctx.pick((0, 1, -2), "y") for _ in range(n)], dtype=float)
    sq = sum((a - b) ** 2 for a, b in zip(x.tolist(), y.tolist()))
    for f, want in ((c.squared_euclidean, sq), (c.euclidean, sq ** 0.5),
                    (c.manhattan, sum(abs(a - b) for a, b in zip(x.tolist(), y.tolist())))):
        got = f(x, y)
        if abs(got - want) > 1e-12 * (1 + want):
            raise Violation("%s(%s, %s) = %r instead of %r" % (f.__name__, x.tolist(), y.tolist(), got, want))
    ctx.outcome = sq


def pairs(ctx, n):
    c = commons()
    if not hasattr(c, "_combinations_1d"):
        return                     # a private helper: nothing to compare when the transforms do without it
    x = np.array([ctx.pick((3, 1, 2), "x") for _ in range(n)])
    y = np.array([ctx.pick((1, 5, 2), "y") for _ in range(n)])
    got = [tuple(r) for r in np.asarray(c._combinations_1d(x, y)).tolist()]
    want = set(zip(x.tolist(), y.tolist()))
    if len(got) != len(want) or set(got) != want:
        raise Violation("distinct pairs of %s and %s: %s" % (x.tolist(), y.tolist(), got))
    ctx.outcome = len(want)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for r in range(1, 4):
        for c in range(1, 4):
            out.append(("unique %dx%d" % (r, c), "unique_rows", dict(rows=r, cols=c, alphabet=(0, 1, 2)), 3 ** (r * c)))
            out.append(("all %dx%d" % (r, c), "all_matrix", dict(rows=r, cols=c), 2 ** (r * c)))
    for r, c in ((4, 1), (4, 2), (1, 4), (2, 4), (3, 4), (4, 3), (5, 2), (6, 1), (6, 2)):
        a = (0, 1, 2) if t and r * c <= 12 else (0, 1)
        out.append(("unique %dx%d" % (r, c), "unique_rows", dict(rows=r, cols=c, alphabet=a), len(a) ** (r * c)))
        out.append(("all %dx%d" % (r, c), "all_matrix", dict(rows=r, cols=c), 2 ** (r * c)))
    for r, c in ((0, 1), (0, 3), (1, 0), (3, 0)):
        out.append(("all %dx%d" % (r, c), "all_matrix", dict(rows=r, cols=c), 1))
    for n in (1, 2, 40, 65, 130, 260) + ((1030,) if t else ()):
        out.append(("long %d" % n, "long_inputs", dict(n=n), n))
    step = 100
    for lo in range(0, 2000 if t else 600, step):
        out.append(("primes %d" % lo, "primes", dict(lo=lo, hi=lo + step), 200))
    for lo in range(600, 20000 if t else 5000, 2200):
        out.append(("is prime %d" % lo, "big_primes", dict(lo=lo, hi=lo + 2200), 50))
    for p in (7921, 10201, 994009, 999000):
        out.append(("is prime around %d" % p, "big_primes", dict(lo=p - 40, hi=p + 40), 5))
    out.append(("choice_log", "choice_log", dict(nmax=120), 100))
    for n in range(2, 15 if t else 10):
        for kind in ("strides", "distances"):
            out.append(("%s n=%d" % (kind, n), "windows_", dict(n=n, kind=kind), 30 * n))
    for n in range(1, 5):
        out.append(("distances %d" % n, "distances", dict(n=n), 9 ** n))
        if n < 4 or t:
            out.append(("pairs %d" % n, "pairs", dict(n=n), 9 ** n))
    out.append(("pairs 4", "pairs", dict(n=4), 6561)) if not t else None
    return out
