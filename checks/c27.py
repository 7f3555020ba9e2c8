# -*- coding: utf-8 -*-
"""C27: compiled functions stay within their arrays; what cannot be handled is rejected before they run."""
import dis
import itertools
import traceback
import warnings

from mc.engine import Prune
from .common import *

warnings.simplefilter("ignore")
BOUNDS = {
    "quick": "transform: all (length<=4, dilation<=4), every series length 2..span+2 in every position of a batch, all channel sets of "
             "3 against 1-4 data channels; fit: label counts 0..n+2 in 5 forms, grids of max_channels, percentiles, lengths, n_samples, "
             "alpha on data of 1-4 series of 3-9 timestamps, 4 kinds x phase; ridge and ensemble predictions on short series",
    "thorough": "length<=6, dilation<=6, all channel sets of 4 against 1-5 data channels, larger grids"}
ASSUMPTIONS = ["an index beyond the end of an array shows as the IndexError of numpy, which runs in place of the compiled code"]
_RAISE = dis.opmap["RAISE_VARARGS"]


def in_kernel(e):
    """Was the exception raised by an operation inside a compiled function (and not by a raise statement of its own)?"""
    tb = list(traceback.walk_tb(e.__traceback__))
    jit = [f for f, _ in tb if f.f_code in rt.JIT_CODE or f.f_code.co_filename.startswith("<parfor")]
    if not jit:
        return False
    t = e.__traceback__
    while t.tb_next is not None:
        t = t.tb_next
    explicit = t.tb_frame.f_code.co_code[t.tb_lasti] == _RAISE and t.tb_frame in jit
    return not (explicit and isinstance(e, ValueError))


def attempt(what, f):
    """-> ("ok", result) or ("rejected", message); anything else is a violation"""
    try:
        return "ok", f()
    except (Violation, Prune, EnvError):
        raise
    except Exception as e:
        from mc.engine import _env_failure
        if _env_failure(e, e.__traceback__):
            raise
        if in_kernel(e):
            raise Violation("%s: a compiled function fails with %s: %s (no bounds are checked once compiled)" % (
                what, type(e).__name__, e))
        if not isinstance(e, (ValueError, TypeError)):
            raise Violation("%s: fails with %s: %s instead of ValueError" % (what, type(e).__name__, e))
        return "rejected", "%s: %s" % (type(e).__name__, e)


def shapelet(kind, l, d, norm, ch, salt):
    v = gen(len(ch), l, salt=salt)
    return Shp(znorm(v) if norm else v, d, 1.37, norm, ch)


def transformed(ctx, what, est, kind, shps, series, phase, must_fit):
    r, out = attempt(what, lambda: transform(est, as_kind(kind, series), len(series), len(shps)))
    if must_fit and r != "ok":
        raise Violation("%s: rejected although every shapelet fits (%s)" % (what, out))
    if not must_fit and r == "ok":
        raise Violation("%s: accepted, giving %s, although a shapelet cannot be applied" % (what, out.tolist()))
    if r == "ok":
        for i, x in enumerate(series):
            for k, s in enumerate(shps):
                check_triple(out[i, 3 * k:3 * k + 3], s, x, phase, False, what)
    ctx.outcome = (r, out.tobytes() if r == "ok" else "")
    ctx.notes["transforms of data that fits" if r == "ok" else "rejections of data that does not fit"] = 1


def spans(ctx, kind, phase, top):
    l = 2 + ctx.choose(top - 1, "length")
    d = 1 + ctx.choose(top, "dilation")
    norm = ctx.bool("norm")
    span = (l - 1) * d + 1
    n = 2 + ctx.choose(span + 1, "n")
    if n < 3 and (phase or n >= span):
        raise Prune()          # too few timestamps for the data itself
    order = ctx.choose(2, "order")
    nch = 1 if kind in UNI else 2
    ch = [0] if kind in UNI else ctx.pick([[0], [1], [1, 0]], "channels")
    shps = [shapelet(kind, l, d, norm, ch, 11), shapelet(kind, 2, 1, not norm, [0], 12)]
    if order:
        shps = shps[::-1]
    series = [gen(nch, n, salt=13 + i) for i in range(2)]
    if kind in VAR:
        series = [gen(nch, span + 2, salt=13), gen(nch, span + 4, salt=14)]
        series.insert(ctx.choose(3, "position"), gen(nch, n, salt=15))
    est = with_shapelets(kind, shps, phase, 2)
    fit = phase or (n >= span and n >= 2)
    transformed(ctx, "series of %s timestamps, shapelets %s (%s, phase %s)" % ([s.shape[1] for s in series], shps, kind, phase),
                est, kind, shps, series, phase, fit)


def channels(ctx, kind, phase, top):
    sets = [list(c) for k in range(1, top + 1) for c in itertools.permutations(range(top), k)]
    a, b = ctx.pick(sets, "channels"), ctx.pick(sets, "channels")
    norm = ctx.bool("norm")
    nch = 1 + ctx.choose(top + 1, "data channels")
    shps = [shapelet(kind, 3, 1, norm, a, 21), shapelet(kind, 2, 2, not norm, b, 22)]
    series = [gen(nch, 6 + (i if kind in VAR else 0), salt=23 + i) for i in range(2)]
    est = with_shapelets(kind, shps, phase, top)
    transformed(ctx, "series of %d channels, shapelets on %s and %s (%s, phase %s)" % (nch, a, b, kind, phase), est, kind, shps,
                series, phase, nch > max(a + b))


FORMS = ["array", "list", "strings", "list of strings", "floats"]


def form(y, how):
    if how == "list":
        return [int(v) for v in y]
    if how == "strings":
        return np.array(["ab"[v] for v in y]) if len(y) else np.array([], dtype="<U1")
    if how == "list of strings":
        return ["ab"[v] for v in y]
    if how == "floats":
        return np.array(y, dtype=float)
    return np.array(y, dtype=int)


def labels(ctx, kind, phase):
    n = 4
    nch = 1 if kind in UNI else 2
    X = as_kind(kind, [gen(nch, 7 + (i % 2 if kind in VAR else 0), salt=31 + i) for i in range(n)])
    k = ctx.choose(n + 3, "labels")
    y = [(i + ctx.choose(2, "label")) % 2 for i in range(k)]
    how = ctx.pick(FORMS, "form")
    opt = ctx.pick([{}, dict(n_samples=0.75), dict(n_samples=1.5)], "options")
    what = "%d labels %r for %d series (%s, %s)" % (k, form(y, how), n, kind, opt)

    def fit(yy):
        return R_DST(n_shapelets=5, shapelet_lengths=[3], phase_invariance=phase, random_state=0, **opt).fit(X, yy)
    r, est = attempt(what, lambda: fit(form(y, how)))
    if k != n and r == "ok":
        raise Violation("%s: accepted" % what)
    if k == n:
        if r != "ok":
            raise Violation("%s: rejected (%s)" % (what, est))
        if not same_shapelets(est.shapelets_, fit(np.array(y)).shapelets_):
            raise Violation("%s: the form of the labels changes the shapelets" % what)
    ctx.outcome = (r, digest(est.shapelets_) if r == "ok" else "")
    ctx.notes["label arrays accepted" if r == "ok" else "label arrays rejected"] = 1


GRID = {
    "max_channels": [None, 1, 2, 3, 7],
    "percentiles": [[5, 10], [0, 0], [100, 100], [0.0, 100.0], [-1, 50], [50, 101], [5.5], [1, 2, 3]],
    "shapelet_lengths": [[2], [3, 30], [0.5], [1.0], [9, 2, 4]],
    "shapelet_lengths_bounds": [None, [0.2, 0.9], [3, 40]],
    "n_samples": [None, 0.1, 0.3, 0.5, 0.75, 1.0, 1.5, 2],
    "alpha": [0.0, 0.5, 1.0],
    "prime_dilations": [False, True],
    "proba_norm": [0.0, 0.5, 1.0],
    "min_len": [None, 3, 50],
    "n_shapelets": [1, 12],
}


def options(ctx, kind, phase, pair, seeds, big):
    """Every pair of options at all their values, the others at their defaults, on data of every small size."""
    par = {}
    for name in pair:
        v = ctx.pick(GRID[name], name)
        par[name] = list(v) if isinstance(v, list) else v
    ns = ctx.pick([1, 2, 4] if not big else [1, 2, 3, 4, 5], "series")
    n = ctx.pick([3, 4, 9] if not big else [3, 4, 5, 6, 9], "timestamps")
    nch = 1 if kind in UNI else ctx.pick([1, 2, 3], "channels")
    seed = ctx.choose(seeds, "random state")
    series = [gen(nch, n + ((i * 2) % 3 if kind in VAR else 0), salt=41 + i) for i in range(ns)]
    y = np.array([i % 2 for i in range(ns)])
    X = as_kind(kind, series)
    p = dict(dict(n_shapelets=6), **par)
    what = "%s on %d series of %s timestamps and %d channels (%s, phase %s, random_state %d)" % (
        p, ns, [s.shape[1] for s in series], nch, kind, phase, seed)
    bad = None
    pct = p.get("percentiles")
    if pct is not None and (len(pct) != 2 or not 0 <= pct[0] <= pct[1] <= 100):
        bad = "percentiles"
    prop = p.get("n_samples")
    if prop is not None and prop != 1.0 and int(ns * prop) < 1:
        bad = bad or "n_samples"
    lens = p.get("shapelet_lengths")
    free = False
    if p.get("shapelet_lengths_bounds") is None and lens is not None and isinstance(lens[0], float) and int(
            min(n, p.get("min_len") or n) * lens[0]) < 2:
        free = True          # lengths below 2: rejected, see C05
    if "shapelet_lengths_bounds" not in p and lens is None:
        p["shapelet_lengths"] = [3]

    def run():
        est = R_DST(transform_type=kind, phase_invariance=phase, random_state=seed, **p).fit(X, y)
        return est, np.array(est.transform(X))
    r, got = attempt(what, run)
    if bad and r == "ok":
        raise Violation("%s: accepted although %s cannot be used" % (what, bad))
    if not bad and not free and r != "ok":
        raise Violation("%s: rejected (%s)" % (what, got))
    if r == "ok":
        est, out = got
        shps = unpack(est)
        if out.shape != (ns, 3 * len(shps)):
            raise Violation("%s: features of shape %s for %d shapelets" % (what, out.shape, len(shps)))
        for i, x in enumerate(series):
            for k, s in enumerate(shps[:4]):
                check_triple(out[i, 3 * k:3 * k + 3], s, x, phase, False, what)
    ctx.outcome = (r, digest(got[1]) if r == "ok" else bad)
    ctx.notes["fits within the arrays" if r == "ok" else "configurations rejected"] = 1


def models(ctx, model, kind):
    from convst.classifiers import R_DST_Ensemble, R_DST_Ridge
    nch = 1 if kind in UNI else 2
    n = 12
    series = [gen(nch, n + (i % 2 if kind in VAR else 0), salt=61 + i) + i % 2 for i in range(6)]
    y = np.array([0, 1] * 3)
    phase = ctx.bool("phase")
    key = (model, kind, phase)
    if key not in _models:
        if model == "ridge":
            m = R_DST_Ridge(n_shapelets=8, shapelet_lengths=[5, 7], random_state=0, phase_invariance=phase)
        else:
            m = R_DST_Ensemble(n_shapelets_per_estimator=8, shapelet_lengths=[5, 7], random_state=0, n_jobs=1, phase_invariance=phase)
        _models[key] = m.fit(as_kind(kind, series), y)
    m = _models[key]
    k = ctx.pick([12, 9, 8, 7, 6, 5, 4, 3], "timestamps")
    c = 1 + ctx.choose(nch, "channels")
    new = [gen(c, k, salt=71), gen(c, k if kind not in VAR else 13, salt=72)]
    if ctx.bool("order"):
        new = new[::-1]
    what = "%s fitted on %d channels, >=12 timestamps, predicts series of %s timestamps, %d channels (%s, phase %s)" % (
        model, nch, [s.shape[1] for s in new], c, kind, phase)
    r, out = attempt(what, lambda: np.asarray(m.predict(as_kind(kind, new))))
    span, used = 0, 0
    for shp in _all_shapelets(model, m):
        span = max(span, (shp.l - 1) * shp.d + 1)
        used = max([used] + shp.channels)
    if model == "ridge":
        fit = (phase or k >= span) and c > used
        if fit != (r == "ok"):
            raise Violation("%s: %s although the longest shapelet spans %d timestamps and uses channel %d (%s)" % (
                what, r, span, used, out))
    elif k == 12 and c == nch and r != "ok":
        raise Violation("%s: rejected (%s)" % (what, out))
    if r == "ok" and not (out.shape == (2,) and set(out.tolist()) <= {0, 1}):
        raise Violation("%s: gives %r" % (what, out))
    ctx.outcome = (r, out.tobytes() if r == "ok" else "")
    ctx.notes["predictions" if r == "ok" else "predictions rejected"] = 1


_models = {}


def _all_shapelets(model, m):
    return unpack(m.transformer) if model == "ridge" else []


def jobs(tier):
    t = tier == "thorough"
    out = []
    names = sorted(GRID)
    for kind in KINDS:
        for phase in (False, True):
            tag = "%s %s" % (kind, "phase" if phase else "plain")
            out.append(("spans " + tag, "spans", dict(kind=kind, phase=phase, top=6 if t else 4), 900))
            if kind not in UNI:
                out.append(("channels " + tag, "channels", dict(kind=kind, phase=phase, top=4 if t else 3), 1500))
            out.append(("labels " + tag, "labels", dict(kind=kind, phase=phase), 1200))
            for a, b in itertools.combinations(names, 2):
                if kind in UNI and "max_channels" in (a, b):
                    continue
                if kind not in VAR and "min_len" in (a, b):
                    continue
                if not t and {a, b} & {"n_shapelets", "alpha", "proba_norm"} and not {a, b} & {"n_samples", "max_channels", "min_len"}:
                    continue
                out.append(("options %s %s %s" % (tag, a, b), "options", dict(
                    kind=kind, phase=phase, pair=(a, b), seeds=3 if t else 1, big=t), len(GRID[a]) * len(GRID[b]) * 9))
        for model in ("ridge", "ensemble"):
            out.append(("models %s %s" % (model, kind), "models", dict(model=model, kind=kind), 400))
    return out
