# -*- coding: utf-8 -*-
"""Drives R_DST.fit under controlled random draws and relates the fitted shapelets to the training data."""
import itertools
import warnings

import numpy as np

from mc.engine import Prune
from .common import *

ALMOST1 = 1.0 - 2.0 ** -20
GRID = tuple(np.linspace(0, 1, 9)[:-1]) + (ALMOST1,)


class LazyUnit(np.float64):
    """A draw on [0, 1[ that may still be rescaled: random() * b is explored like uniform(0, b)."""
    rng, first = None, False

    def __mul__(self, b):
        if self.rng is None or not np.ndim(b) == 0:
            return np.float64(self) * b
        return self.rng.rescaled(self.first, b)

    __rmul__ = __mul__


class LazyUnits(np.ndarray):
    rng, first = None, False

    def __mul__(self, b):
        if self.rng is None:
            return np.asarray(self) * b
        b = np.broadcast_to(b, self.shape)
        return np.array([self.rng.rescaled(self.first, x) for x in b.flat]).reshape(self.shape)

    __rmul__ = __mul__


class FitRNG(rt.ChoiceRNG):
    """Uniform draws on [0, b] (dilations) take a menu hitting every integer cell of 2**[0,b] plus a regular grid; other
    uniform draws (thresholds) take `thr`; unit draws take `unit`."""

    def __init__(self, ctx, unit=(0.0, ALMOST1), dil="dense", thr=(0.0, ALMOST1)):
        rt.ChoiceRNG.__init__(self, ctx, unit_menu=unit)
        self.dil, self.thr = dil, thr

    def random(self, size=None):
        n = len(self.ctx.path)
        v = rt.ChoiceRNG.random(self, size)
        out = LazyUnit(v) if size is None else v.view(LazyUnits)
        out.rng, out.first = self, not any(self.ctx.path[n:])
        return out

    def rescaled(self, first, b):
        if not first:
            raise Prune()            # the draw before rescaling does not matter: explored once
        if not b > 0:
            return 0.0 * b
        top = 2.0 ** b if b < 60 else np.inf
        m = self.menu(0, b) if top < 1e6 and abs(top - np.round(top)) < 1e-9 else self.thr
        return np.float64((m[self.ctx.choose(len(m), "uniform")] if len(m) > 1 else m[0]) * b)

    def menu(self, lo, hi):
        if lo != 0:
            return self.thr
        if self.dil != "dense":
            return self.dil
        top = 2.0 ** hi
        if top > 64:
            return GRID
        m = [np.log2(d + 0.5) / hi for d in range(1, int(top) + 1) if d + 0.5 < top]
        return tuple(sorted(set([0.0, 0.35, 0.65, ALMOST1] + m)))

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) == 0 and np.ndim(high) == 0 and (low, high) == (0, 1):
            return self.random(size)

        def one(lo, hi):
            self.draws += 1
            if np.isnan(lo) or np.isnan(hi):
                return np.nan
            if not hi > lo:
                return float(lo)
            m = self.menu(lo, hi)
            u = m[self.ctx.choose(len(m), "uniform")] if len(m) > 1 else m[0]
            return lo + (hi - lo) * u
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return one(low, high)
        shape = size if size is not None else np.broadcast(low, high).shape
        lo, hi = np.broadcast_to(low, shape), np.broadcast_to(high, shape)
        out = np.empty(shape)
        for i in range(out.size):
            out.flat[i] = one(lo.flat[i], hi.flat[i])
        return out


class ShapeRNG(FitRNG):
    """Explores the draws that decide shapes: uniform draws, the first unit draw and the first index draw (the length);
    later index draws (sample, start) and unit draws (normalised or not) take the first value."""
    index_draws = 0
    unit_draws = 0

    def _unit(self, label):
        self.unit_draws += 1
        return FitRNG._unit(self, label) if self.unit_draws == 1 else 0.0

    def _index(self, n, label):
        if n > 1 and n <= self.big:
            self.index_draws += 1
            if self.index_draws > 1:
                return 0
        return FitRNG._index(self, n, label)


class Data(object):
    """Training series with pairwise distinct non-zero values.  zeros: one zero in each channel; twin: the second half of
    the series repeats the first; offset: added to every value."""

    def __init__(self, kind, lens, y, nch=1, salt=0, scale=1.0, zeros=False, twin=False, offset=0.0):
        self.kind = kind
        self.nch = 1 if kind in UNI else nch
        if kind not in VAR:
            lens = [lens[0]] * len(lens)
        self.lens = list(lens)
        flat = gen(sum(self.lens) * self.nch, salt=2000 + salt) * scale
        flat = np.where(np.abs(flat) < 1e-3, 0.1234, flat) + offset
        self.tol = 1e-9 if not offset else 1e-6
        self.series, a = [], 0
        for n in self.lens:
            self.series.append(flat[a:a + n * self.nch].reshape(self.nch, n).copy())
            a += n * self.nch
        for q, x in enumerate(self.series if zeros else []):
            x[:, (1 + q) % x.shape[1]] = 0.0
        if twin:
            h = len(self.lens) // 2
            self.series[h:] = [x.copy() for x in self.series[:h]]
            self.lens[h:] = self.lens[:h]
        self.y = np.array(y)
        self.X = as_kind(kind, self.series)
        self.n = min(self.lens)
        self._src = {}

    def sources(self, shp, phase):
        """All (sample, start) of which the shapelet is the dilated window on its channels."""
        key = (shp.values.tobytes(), shp.d, shp.norm, tuple(shp.channels), bool(phase))
        if key not in self._src:
            out = []
            for s, x in enumerate(self.series):
                n = x.shape[1]
                if not phase and (shp.l - 1) * shp.d >= n:
                    continue
                ok = None
                for r, c in enumerate(shp.channels):
                    if not 0 <= c < x.shape[0]:
                        return []
                    w = windows(x[c], shp.l, shp.d, phase)
                    if shp.norm:
                        m = (np.abs(znorm(w) - shp.values[r]) < self.tol).all(axis=1)
                    else:
                        m = (w == shp.values[r]).all(axis=1)
                    ok = m if ok is None else ok & m
                out += [(s, int(i)) for i in np.where(ok)[0]]
            self._src[key] = out
        return self._src[key]


_data = {}


def data(kind, lens, y, nch=1, salt=0, scale=1.0, **more):
    key = (kind, tuple(lens), tuple(y), nch, salt, scale, tuple(sorted(more.items())))
    if key not in _data:
        _data[key] = Data(kind, lens, y, nch, salt, scale, **more)
    return _data[key]


def fit_draws(ctx, D, rng, X=None, y=None, **params):
    """fit with every random draw decided by the explorer"""
    params.setdefault("transform_type", D.kind)
    params.setdefault("random_state", None)
    rt.rng = rng
    try:
        return R_DST(**params).fit(D.X if X is None else X, D.y if y is None else y)
    finally:
        rt.rng = None


def fit_seed(D, seed, X=None, y=None, **params):
    params.setdefault("transform_type", D.kind)
    return R_DST(random_state=seed, **params).fit(D.X if X is None else X, D.y if y is None else y)


# ------------------------------------------------------------------ definitions
def is_prime(n):
    return n == 1 or (n > 1 and all(n % k for k in range(2, n)))


def candidate_lengths(n, shapelet_lengths=None, bounds=None, reduction=0.5):
    """The documented candidate set, before the replacement of the lengths exceeding the series."""
    if bounds is None:
        a = np.asarray(shapelet_lengths)
        if a.dtype.kind == "f":
            return [int(np.floor(n * v)) for v in a.tolist()]
        return [int(v) for v in a.tolist()]
    b0, b1 = [int(b * n) if isinstance(b, float) else int(b) for b in bounds]
    ls = list(range(max(3, b0), max(4, b0 + 1, b1 + 1)))
    if len(ls) > 3:
        r = int(len(ls) * reduction)
        if r > 0:
            ls = ls[::len(ls) // r]
    return ls


def admissible_lengths(n, **spec):
    return sorted(set(l if l <= n else max(2, n // 2) for l in candidate_lengths(n, **spec)))


def check_sources(D, est, k, phase, p_norm, what=""):
    shps = unpack(est)
    if len(shps) > k:
        raise Violation("%d shapelets although %d were asked for %s" % (len(shps), k, what))
    for s in shps:
        if s.norm and p_norm <= 0 or (not s.norm and p_norm >= 1):
            raise Violation("normalised flag %s with a probability of %s %s" % (s.norm, p_norm, what))
        if len(set(s.channels)) != len(s.channels) or not s.channels:
            raise Violation("channels %s are not distinct %s" % (s.channels, what))
        if not np.isfinite(s.values).all() or not np.isfinite(s.thr):
            raise Violation("shapelet %r is not finite %s" % (s, what))
        if not D.sources(s, phase):
            raise Violation("shapelet %r is no dilated window%s of a training series: %s %s" % (
                s, " (wrapping)" if phase else "", [x.tolist() for x in D.series], what))
    return shps


def check_admissible(shps, lengths, n, prime, what=""):
    for s in shps:
        if s.l not in lengths:
            raise Violation("length %d is not a candidate length %s (n=%d) %s" % (s.l, lengths, n, what))
        if s.l < 2 or s.l > n:
            raise Violation("length %d is not in [2, %d] %s" % (s.l, n, what))
        if s.d < 1 or (s.l - 1) * s.d >= n:
            raise Violation("dilation %d with length %d does not fit in %d timestamps %s" % (s.d, s.l, n, what))
        if prime and not is_prime(s.d):
            raise Violation("dilation %d is not prime %s" % (s.d, what))


def overlap_bounds(length, alpha, min_l):
    """Number of dilation steps on each side of a start that later shapelets may not start at: (loosest, strictest)."""
    v = (1 - alpha) * min_l
    lo = length - max(1, int(np.floor(v + 1e-9)))
    hi = length - max(1, int(np.floor(v - 1e-9)))
    return lo, hi


def masked_starts(start, d, n, steps):
    out = set()
    for j in range(steps):
        out.add((start - j * d) % n)
        out.add((start + j * d) % n)
    return out


def check_overlap(D, shps, k, phase, alpha, lengths, what=""):
    """Start offsets of same (dilation, normalisation) shapelets; then: nothing dropped while a position was left."""
    by = {}
    placed = []
    for s in shps:
        src = D.sources(s, phase)
        if not src:
            raise Violation("shapelet %r is no window of a training series %s" % (s, what))
        if len(src) > 1:
            raise Prune()
        by.setdefault((s.d, s.norm), []).append((s, src[0]))
    all_here = len(shps) == k
    for (d, norm), group in by.items():
        ml = min(s.l for s, _ in group_of_dilation(by, d))
        for b in range(len(group)):
            sb, (ib, tb) = group[b]
            bad = 0
            for c in sb.channels:
                hit = False
                for a in range(b):
                    sa, (ia, ta) = group[a]
                    if ia != ib or c not in sa.channels:
                        continue
                    steps, _ = overlap_bounds(sa.l, alpha, ml)
                    if tb in masked_starts(ta, d, D.lens[ia], steps):
                        hit = True
                bad += hit
            allowed = 0 if D.kind in UNI else (1 - alpha) * len(sb.channels) + 1e-9
            if bad > allowed:
                raise Violation("alpha=%s: %r starting at %d of series %d overlaps earlier shapelets on %d of %d channels: "
                                "%s %s" % (alpha, sb, tb, ib, bad, len(sb.channels),
                                           [(g[0], g[1]) for g in group[:b]], what))
    if all_here:
        return
    for l in lengths:
        for d in range(1, (D.n - 1) // (l - 1) + 1):
            for norm in (False, True):
                if exhausted(D, by, l, d, norm, phase, alpha, lengths):
                    return
    raise Violation("alpha=%s: only %d of %d shapelets although every length and dilation has an admissible position left: "
                    "%s %s" % (alpha, len(shps), k, shps, what))


def group_of_dilation(by, d):
    return [g for (dd, _), gs in by.items() if dd == d for g in gs]


def exhausted(D, by, l, d, norm, phase, alpha, lengths):
    """May every start of some shapelet with these parameters have been excluded?  (min length: as small as possible)"""
    ml = min(lengths)
    rows = set()
    for i, n in enumerate(D.lens):
        starts = range(n) if phase else range(n - (l - 1) * d)
        taken = {}
        for s, (si, st) in by.get((d, norm), []):
            if si == i:
                _, steps = overlap_bounds(s.l, alpha, ml)
                for c in s.channels:
                    taken.setdefault(c, set()).update(masked_starts(st, d, n, steps))
        for t in starts:
            rows.add(tuple(t not in taken.get(c, ()) for c in range(D.nch)))
    if D.kind in UNI:
        return not any(r[0] for r in rows)
    for size in range(1, D.nch + 1):
        for C in itertools.combinations(range(D.nch), size):
            if all(sum(r[c] for c in C) < size * alpha + 1e-9 for r in rows):
                return True
    return False


def check_threshold(D, shps, phase, percentiles, what="", pool=None):
    """Returns for each shapelet the (source sample, other sample) pairs explaining its threshold."""
    out = []
    p0, p1 = float(percentiles[0]), float(percentiles[1])
    for s in shps:
        src = sorted(set(i for i, _ in D.sources(s, phase)))
        expl = []
        for i in src:
            if pool is not None and i not in pool:
                continue
            others = [j for j in range(len(D.y)) if D.y[j] == D.y[i] and j != i and (pool is None or j in pool)] or [i]
            for j in others:
                p = s.profile(D.series[j], phase)
                a, b = np.percentile(p, [p0, p1])
                tol = 1e-9 * (1 + np.abs(p).max())
                if a - tol <= s.thr <= b + tol:
                    expl.append((i, j))
        if not expl:
            raise Violation("threshold %.9g of %r (extracted from %s) is not between percentiles %s of its distance profile to "
                            "another series of the class, y=%s: %s %s" % (
                                s.thr, s, D.sources(s, phase), list(percentiles), D.y.tolist(),
                                {j: np.percentile(s.profile(D.series[j], phase), [p0, p1]).tolist()
                                 for j in range(len(D.y)) if (len(D.series[j][0]) > (s.l - 1) * s.d)}, what))
        out.append(expl)
    return out
