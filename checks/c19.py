# -*- coding: utf-8 -*-
"""C19: interpretation tools agree with the model they explain."""
from .compose import *

BOUNDS = {
    "quick": "all series over {0,1,3} of 5 timestamps and over {0,1} of 6 to 8 (lists and arrays, int/float, generic reals too) x two "
             "sets of shapelets of all (length, dilation) x normalise x phase x univariate same and variable length, drawn on a new "
             "figure and on given axes; importance: 2-3 classes x 9 label sets x dropped-feature subsets (up to 3 of 9 or all but some) x "
             "all (best, second best) features x all examples drawn (one label set, elsewhere one draw per case), 1-3 shapelets shown",
    "thorough": "series over {0,1,3} of 6 and over {0,1} of 9 timestamps; all dropped subsets"}


def log():
    from matplotlib import pyplot
    return pyplot.LOG


def axes():
    from matplotlib import pyplot
    return pyplot.Rec("given axes")


def calls(method, obj=None):
    return [e for e in log() if e[1] == method and (obj is None or e[0] == obj)]


def shapelet_set(n, phase, which):
    out = []
    vals = [[0.0, 1.0, 0.0, 3.0, 1.0, 1.0, 0.0, 1.0, 3.0], [1.0, 1.0, 3.0, 0.0, 0.0, 1.0, 3.0, 3.0, 0.0]][which]
    for i, (l, d) in enumerate(shapes(n)):
        for norm in (False, True):
            v = np.array([vals[(i + j) % 9] for j in range(l)])
            if norm:
                v = znorm(v + 0.01 * np.arange(l))
            thr = [0.0, 1.0, 2.0, float(l), 4.0][(i + which + norm) % 5]
            out.append(Shp(v, d, thr, norm))
    return out


_int = {}


def interpreter(kind, shps, phase):
    from convst.interpreters import RDST_interpreter
    est = with_shapelets(kind, shps, phase)
    return est, RDST_interpreter(est)


def one_array(entries, n_arg=0):
    return np.asarray(entries[2][n_arg], dtype=float).ravel()


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def check_plots(it, k, s, x, row, phase, given, what):
    """Everything drawn for shapelet k (definition s) on series x, whose features are `row`."""
    n = len(x)
    p = s.profile([x], phase)
    tol = 1e-9 * (1 + np.abs(p).max())
    keep = np.array(x, copy=True)
    # distance vector
    del log()[:]
    kw = dict(ax=axes()) if given else {}
    it.plot_distance_vector(k, x, **kw)
    obj = "given axes" if given else None
    pl = [e for e in calls("plot", obj) if e[2]]
    if not pl:
        raise Violation("no curve was drawn by plot_distance_vector %s" % what)
    c = one_array(pl[0])
    if c.shape != p.shape or not close(c, p, 1e-7):
        raise Violation("plotted distance vector %s instead of %s %s" % (c.tolist(), p.tolist(), what))
    if abs(c.min() - row[0]) > tol * 10:
        raise Violation("minimum of the plotted vector %s, feature %s %s" % (c.min(), row[0], what))
    am = int(c.argmin())
    if am != row[1]:
        if s.norm is False and (np.asarray(x) == np.round(x)).all() or c[int(row[1])] > c.min() + tol * 10:
            raise Violation("first minimum of the plotted vector %s at %d, feature %s %s" % (c.tolist(), am, row[1], what))
    lo, hi = (c <= s.thr - tol).sum(), (c <= s.thr + tol).sum()
    if not lo <= row[2] <= hi:
        raise Violation("%d..%d plotted values under the threshold, feature %s %s" % (lo, hi, row[2], what))
    th = calls("hlines", obj) + calls("axhline", obj)
    if th and not close(np.ravel(th[0][2][0] if th[0][2] else th[0][3].get("y"))[0], s.thr):
        raise Violation("threshold drawn at %s instead of %s %s" % (th[0][2], s.thr, what))
    # match
    del log()[:]
    it.plot_on_X(k, x, **kw)
    pl = [e for e in calls("plot", obj) if e[2]]
    if not pl or not close(one_array(pl[0]), keep):
        raise Violation("the series drawn by plot_on_X is not the series given %s" % what)
    sc = calls("scatter", obj)
    if len(sc) != 1:
        raise Violation("%d matches drawn %s" % (len(sc), what))
    idx, vals = np.asarray(sc[0][2][0]), np.asarray(sc[0][2][1], dtype=float)
    starts = [am] + [i for i in range(len(p)) if p[i] <= p.min() + tol and s.norm]
    if not any([int(i) for i in idx] == [(a + j * s.d) % n for j in range(s.l)] for a in starts):
        raise Violation("match drawn at %s instead of %s %s" % (idx.tolist(), [(am + j * s.d) % n for j in range(s.l)], what))
    w = np.asarray(x, dtype=float)[[int(i) for i in idx]]
    want = s.values[0] * w.std() + w.mean() if s.norm else s.values[0]
    if not close(vals, want, 1e-7):
        raise Violation("values drawn on the match %s instead of %s %s" % (vals.tolist(), want.tolist(), what))
    # the shapelet alone
    del log()[:]
    it.plot(k, **kw)
    pl = [e for e in calls("plot", obj) if e[2]]
    if not pl or not close(one_array(pl[0]), s.values[0]):
        raise Violation("values of the shapelet drawn as %s instead of %s %s" % (
            one_array(pl[0]).tolist() if pl else None, s.values[0].tolist(), what))
    if not np.array_equal(keep, x):
        raise Violation("plotting modified the series %s" % what)


def plots(ctx, kind, n, alphabet, phase, which, first, form="float"):
    x = np.array([first] + [ctx.pick(alphabet, "value") for _ in range(n - 1)], dtype=float)
    if form == "generic":
        x = x * 0.7 + gen(n, salt=1900)
    shps = shapelet_set(n, phase, which)
    est, it = interpreter(kind, shps, phase)
    extra = [gen(1, n + 2, salt=1901)] if kind in VAR else []
    X = as_kind(kind, [x[None, :]] + extra)
    F = est.transform(X)
    s = x
    if form == "int":
        s = x.astype(np.int64)
    elif form == "view":
        s = np.repeat(x, 2)[::2]
    for k, sh in enumerate(shps):
        check_plots(it, k, sh, s, F[0, 3 * k:3 * k + 3], phase, (k + int(x.sum())) % 2 == 0,
                    "(shapelet %r, series %s, %s, phase=%s)" % (sh, x.tolist(), kind, phase))
    ctx.outcome = (kind, phase, which, form, F[0].tobytes())


def rejects(ctx):
    from convst.interpreters import RDST_interpreter
    kind = ctx.pick(["multivariate", "multivariate_variable"], "kind")
    est = with_shapelets(kind, [Shp(gen(2, 3, salt=1950), 1, 1.0, False, [0, 1]), Shp(gen(1, 2, salt=1951), 2, 1.0, True, [1])], False)
    it = RDST_interpreter(est)
    which = ctx.pick(["plot", "plot_on_X", "plot_distance_vector"], "method")
    try:
        getattr(it, which)(*([0] if which == "plot" else [0, gen(8, salt=1952)]))
    except NotImplementedError:
        ctx.outcome = (kind, which)
        return
    raise Violation("%s of a multivariate transformer did not raise NotImplementedError" % which)


# ------------------------------------------------------------------ importance
class Fixed(object):
    """Features of series i are the row i of a table (the identity of a series is its first value)."""

    def __init__(self, table):
        self.table = table

    def __call__(self, X):
        return np.array([self.table[int(round(float(np.asarray(x)[0, 0])))] for x in X])


class FirstRNG(rt.ChoiceRNG):
    def _index(self, n, label):
        self.draws += 1
        return (self.draws * 5 + self.salt) % n
    salt = 0


def importance(ctx, K, labels, phase, kind, n_shp, full, draws):
    from convst.classifiers import R_DST_Ridge
    from convst.interpreters import RDST_Ridge_interpreter
    lab = LABELS[labels][:K]
    n = 4 if K == 2 else 6
    y = lab[[0, 1, K - 1, 0, 1, K - 1][:n]]
    k = 3
    p = 3 * k
    if full:
        dropped = [j for j in range(p) if ctx.bool("dropped")]
    else:
        menu = [[], [0], [8], [4], [0, 1, 2], [3, 5], [6, 7, 8], [1, 4, 7], [2, 5], [0, 8], [0, 1, 2, 3], [1, 2, 4, 5, 7], [0, 1, 2, 6, 7, 8]]
        dropped = ctx.pick(menu, "dropped")
    kept = [j for j in range(p) if j not in dropped]
    if len(kept) < 2:
        raise Prune()
    best = ctx.pick(kept, "best")
    second = ctx.pick([j for j in kept if j != best], "second")
    cls_i = ctx.choose(K, "class")
    classes = np.unique(y)
    c = classes[cls_i]
    if isinstance(c, np.generic):
        c = c.item()
    tab = gen(n, p, salt=1960)
    tab[:, dropped] = np.linspace(-1, 1, p)[dropped]
    imp = np.array([-0.5 - 0.1 * ((7 * j) % p) for j in range(p)])
    imp[best], imp[second] = 3.0, 2.0
    imp[dropped] = 0.0
    rows = np.array([[((3 * j + 5 * r) % 7) / 7.0 - 2 * (j == (best + r + 1) % p) for j in range(p)] for r in range(K)])
    rows[cls_i] = imp
    coef = rows[:, kept]
    if K == 2:
        coef = coef[1:] if cls_i == 1 else -coef[:1]
    series = [gen(1, 9 + (i % 2 if kind in VAR else 0), salt=1970 + i) for i in range(n)]
    for i in range(n):
        series[i][0, 0] = i
    X = as_kind(kind, series)
    shps = [Shp([1.0, 2.0], 1, 0.5, False), Shp([-1.0, 1.0, 0.0], 2, 1.5, True), Shp([0.0, 3.0, 1.0, -2.0], 1, 3.0, False)]
    fx = Fixed(tab)

    def fit(e, X, y):
        e.shapelets_ = pack(kind, shps)
        e.transform_type = kind
    with Recorder(fit=fit, transform=lambda e, X: fx(X)):
        est = R_DST_Ridge(n_shapelets=3, transform_type=kind, phase_invariance=phase, alphas_ridge=[1.0])
        est.fit(X, y)
        model = [e[1] for e in rt.ridge_log if e[0] == "fit"][-1]
        model.coef_ = coef.copy()
        it = RDST_Ridge_interpreter(est)
        get = getattr(it, "_get_shp_importance", None)
        if get is not None:
            g = np.asarray(get(c), dtype=float)
            if g.shape != (p,) or not np.allclose(g, imp):
                raise Violation("importance %s instead of %s (class %r, dropped %s, coefficients %s)" % (
                    g.tolist(), imp.tolist(), c, dropped, coef.tolist()))
        del log()[:]
        rt.rng = rt.ChoiceRNG(ctx) if draws else FirstRNG(ctx)
        rt.rng.salt = best + second + cls_i
        try:
            it.visualize_best_shapelets_one_class(X, y, c, n_shp=n_shp)
        finally:
            rt.rng = None
    what = "(class %r of %s, dropped %s, best features %d then %d, importance %s)" % (c, y.tolist(), dropped, best, second, imp.tolist())
    score = [imp[3 * i:3 * i + 3].max() for i in range(k)]
    order = sorted(range(k), key=lambda i: -score[i])
    figs, cur = [], None
    for e in list(log()):
        if e[1] in ("subplots", "figure"):
            cur = []
            figs.append(cur)
        elif cur is not None:
            cur.append(e)
    if len(figs) != min(n_shp, k):
        raise Violation("%d shapelets shown instead of %d %s" % (len(figs), n_shp, what))
    left = set(range(k))
    for pos, f in enumerate(figs):
        boxes = [e for e in f if e[1] == "boxplot"]
        shown = set()
        for b in boxes:
            v = np.asarray(b[3].get("y", b[2][1] if len(b[2]) > 1 else None), dtype=float)
            j = [j for j in range(p) if np.array_equal(v, tab[:, j])]
            if not j:
                raise Violation("a box plot shows values that are no feature: %s %s" % (v.tolist(), what))
            shown.add(j[0])
            hue = np.asarray(b[3].get("x", b[2][0] if b[2] else None))
            if not np.array_equal(hue.astype(int), (y == c).astype(int)):
                raise Violation("box plots grouped by %s instead of membership of class %r in %s %s" % (hue.tolist(), c, y.tolist(), what))
        ids = set(j // 3 for j in shown)
        if len(ids) != 1 or len(shown) != 3:
            raise Violation("box plots of features %s in one figure %s" % (sorted(shown), what))
        i = ids.pop()
        if i not in left or score[i] < max(score[q] for q in left) - 1e-12:
            raise Violation("shapelet %d shown at rank %d instead of %s %s" % (i, pos, order, what))
        left.discard(i)
        # examples: one series of the class, one of another, each in a match and a distance curve
        s = shps[i]
        sc = [e for e in f if e[1] == "scatter"]
        cl = [e for e in f if e[1] == "plot" and e[2]]
        curves = [np.asarray(e[2][0], dtype=float).ravel() for e in cl]
        labs = [e[3].get("label") for e in cl]
        if not any(v.shape == s.values[0].shape and np.allclose(v, s.values[0]) for v in curves):
            raise Violation("the values of shapelet %d are not drawn %s" % (i, what))
        drawn = [(j, q) for j, v in enumerate(curves) for q in range(n) if np.array_equal(v, series[q][0])]
        if len(drawn) != 2 or len(sc) != 2 or sorted(bool(y[q] == c) for _, q in drawn) != [False, True]:
            raise Violation("the two examples are series %s of classes %s, %d matches %s" % (
                [q for _, q in drawn], [y[q] for _, q in drawn], len(sc), what))
        for (j, q), e in zip(drawn, sc):
            x = series[q][0]
            pr = s.profile([x], phase)
            a = int(pr.argmin())
            if [int(v) for v in e[2][0]] != [(a + m * s.d) % len(x) for m in range(s.l)]:
                raise Violation("match of shapelet %d on series %d drawn at %s %s" % (i, q, list(e[2][0]), what))
            if labs[j] is not None and ("Class %s" % c == labs[j]) != bool(y[q] == c):
                raise Violation("series %d of class %r is labelled %r %s" % (q, y[q], labs[j], what))
            if not any(v.shape == pr.shape and np.allclose(v, pr) for v in curves):
                raise Violation("the distance vector of shapelet %d to series %d is not drawn %s" % (i, q, what))
    ctx.outcome = (K, labels, kind, phase, n_shp, tuple(dropped), best, second, cls_i)


def jobs(tier):
    q = tier == "quick"
    out = []
    runs = [(5, (0.0, 1.0, 3.0), "float"), (6, (0.0, 1.0), "float"), (7, (0.0, 1.0), "float"), (8, (0.0, 1.0), "float"), (6, (0.0, 1.0), "generic"),
            (5, (0.0, 1.0), "int"), (5, (0.0, 1.0), "view")]
    if not q:
        runs += [(6, (0.0, 1.0, 3.0), "float"), (9, (0.0, 1.0), "float")]
    for kind in UNI:
        for phase in (False, True):
            for which in (0, 1):
                for n, al, form in runs:
                    if q and n == 8 and (kind in VAR) != bool(which):
                        continue
                    for f in al:
                        out.append(("plots %s phase=%s set %d n=%d %s %s first=%g" % (kind, phase, which, n, len(al), form, f), "plots",
                                    dict(kind=kind, n=n, alphabet=al, phase=phase, which=which, first=f, form=form), len(al) ** n / 9.))
    out.append(("rejects", "rejects", {}, 1))
    for K in (2, 3):
        for i, lb in enumerate(LABELS):
            if K > len(LABELS[lb]):
                continue
            for m in (1, 2, 3):
                if q and lb not in ("range", "strings") and m != 1 + i % 3:
                    continue
                out.append(("importance %d %s %d shown" % (K, lb, m), "importance",
                            dict(K=K, labels=lb, phase=bool((i + m) % 2), kind=UNI[(i + K) % 2], n_shp=m, full=not q, draws=lb == "strings" and (m == 1 if K == 3 else m < 3)), 200))
    return out
