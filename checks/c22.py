# -*- coding: utf-8 -*-
"""C22: model comparison statistics are right for every results table.  (real pandas; the statistical tests are an environment
whose p-values are enumerated, the plots are recorded)"""
import contextlib
import io
import math
import re

from .common import *
from .common import gen
import pandas as pd

BOUNDS = {
    "quick": "Holm and groups: 3 models, all assignments of 7 p-values around Holm's levels to the pairs x 2 levels; 4 models, all assignments of 3 p-values "
             "(and 5 p-values on the orderings of 6 distinct ones, rotated); 5 models, all graphs of 5 vertices up to the order of the ranks used; "
             "ranks: all tables of 3 scores for 3 models x 2 datasets (all) and 3 x 3, 4 x 2 (every 20th); pairing: all orders of the rows of 3 x 2 tables, "
             "rotations and reversals of larger ones, 4 kinds of index; incomplete models; identical models with p-values 1 and nan; 12 cases of 9 models on 12 datasets; pairwise plot: all "
             "tables of 4 scores for 2 models x 2 datasets, 3 and 4 models x 1 dataset, 4 margins, 1-3 columns, all row orders",
    "thorough": "more tables (3 x 3 every 3rd, 5 models every graph under 3 rank orders)"}

NAMES = ["m10", "Zeta", "alpha", "m9", "B"]
DATA = ["d2", "D1", "d10", "a"]


def mods():
    from convst.utils import plot_utils as p
    return p


def table(models, scores, order, index, extra=False):
    """scores[m][d]; rows in the given order."""
    rows = [(m, d, scores[i][j]) for i, m in enumerate(models) for j, d in enumerate(DATA[:len(scores[i])]) if scores[i][j] is not None]
    rows = [rows[i] for i in order(len(rows))]
    df = pd.DataFrame(rows, columns=["classifier_name", "dataset_name", "accuracy"])
    if index == "reversed":
        df.index = list(range(len(df)))[::-1]
    elif index == "repeated":
        df.index = [i % 2 for i in range(len(df))]
    elif index == "names":
        df.index = ["r%d" % (7 * i % len(df)) for i in range(len(df))]
    if extra:
        df.insert(0, "time", np.arange(len(df))[::-1])
    return df


ORDERS = {"model": lambda n: list(range(n)), "reversed": lambda n: list(range(n))[::-1], "odd first": lambda n: sorted(range(n), key=lambda i: (-(i % 2), i)),
          "stride": lambda n: sorted(range(n), key=lambda i: (i * 5 % 7, i))}


def ranks(scores):
    """Average over datasets of the rank of each model's score (best 1, ties averaged)."""
    m, d = len(scores), len(scores[0])
    return [sum(1 + sum(scores[k][j] > scores[i][j] for k in range(m)) + 0.5 * (sum(scores[k][j] == scores[i][j] for k in range(m)) - 1)
                for j in range(d)) / float(d) for i in range(m)]


def holm(pv, alpha):
    """{pair: p} -> set of significant pairs."""
    ps = sorted(pv.items(), key=lambda t: t[1])
    out = set()
    for i, (pair, p) in enumerate(ps):
        if p > alpha / (len(ps) - i):
            break
        out.add(pair)
    return out


def cliques(n, edges):
    cl = [set(c) for r in range(2, n + 1) for c in itertools.combinations(range(n), r)
          if all(frozenset(e) in edges for e in itertools.combinations(c, 2))]
    return [c for c in cl if not any(c < d for d in cl)]


class Stats(object):
    """Answers of the tests; checks that what they are given is paired by dataset."""

    def __init__(self, models, scores, pv, what, nan=None):
        self.m, self.s, self.pv, self.what, self.nan = models, scores, pv, what, nan
        self.asked, self.friedmans = [], 0

    def pair(self, x, y, zero_method):
        x, y = [float(v) for v in x], [float(v) for v in (y if y is not None else [0] * len(x))]
        hits = [(i, j) for i in range(len(self.m)) for j in range(len(self.m)) if i != j
                and sorted(zip(self.s[i], self.s[j])) == sorted(zip(x, y))]
        if not hits:
            raise Violation("the pairwise test compares %s with %s: no two models' scores paired by dataset (%s) %s" % (
                x, y, dict(zip(self.m, self.s)), self.what))
        k = [h for h in hits if frozenset(h) not in self.asked] or hits
        self.asked.append(frozenset(k[0]))
        if self.nan is not None and x == y:
            return 0.0, self.nan
        return 0.0, self.pv[frozenset(k[0])]

    def friedman(self, *a):
        if len(a) < 3:
            raise ValueError("At least 3 sets of samples must be given for Friedman test, got %d." % len(a))
        self.friedmans += 1
        cols = sorted(zip(*[[float(v) for v in x] for x in a]))
        if len(a) != len(self.m) or not any(cols == sorted(zip(*[self.s[i] for i in q])) for q in itertools.permutations(range(len(a)))):
            raise Violation("the Friedman test is given %s: not the models' scores paired by dataset (%s) %s" % (
                [list(x) for x in a], dict(zip(self.m, self.s)), self.what))
        return 1.0, 0.01


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def diagram(df, alpha, **k):
    """The recorded diagram: ({model: x of its rank}, [(x from, x to) of the joining lines], {model: rank text}, scale)."""
    from matplotlib import pyplot as plt
    del plt.LOG[:]
    quiet(mods().draw_cd_diagram, df_perf=df, alpha=alpha, **k)
    log = list(plt.LOG)
    del plt.LOG[:]
    texts = [(float(e[2][0]), float(e[2][1]), e[2][2]) for e in log if e[1] == "text"]
    lines = [([float(v) for v in e[2][0]], [float(v) for v in e[2][1]], e[3]) for e in log if e[1] == "plot" and len(e[2]) >= 2]
    return texts, lines


def read(models, df, alpha, what):
    texts, lines = diagram(df, alpha, labels=True)
    ticks = dict((int(t), x) for x, y, t in texts if re.match(r"^\d+$", t))
    if 1 not in ticks or len(models) not in ticks:
        raise Violation("the axis of the diagram shows ranks %s for %d models %s" % (sorted(ticks), len(models), what))
    x1, xm = ticks[1], ticks[len(models)]
    for t, x in ticks.items():
        if abs(x - (x1 + (xm - x1) * (t - 1) / (len(models) - 1.0))) > 1e-9:
            raise Violation("tick %d of the diagram is not on the axis' scale %s" % (t, what))
    rank_of = lambda x: 1 + (x - x1) / (xm - x1) * (len(models) - 1.0)
    shown = [(x, y, t) for x, y, t in texts if t in models]
    if sorted(t for _, _, t in shown) != sorted(models):
        raise Violation("models %s are shown instead of %s %s" % (sorted(t for _, _, t in shown), sorted(models), what))
    pos, label = {}, {}
    bent = [l for l in lines if len(l[0]) == 3]
    nums = [(x, y, t) for x, y, t in texts if re.match(r"^\d+\.\d+$", t)]
    for x, y, t in shown:
        l = [b for b in bent if abs(b[1][-1] - y) < 1e-9 and abs(b[0][-1] - x) < abs(b[0][0] - x) + 1e-9]
        l = sorted(l, key=lambda b: abs(b[0][-1] - x))
        if not l:
            raise Violation("no line leads to model %s %s" % (t, what))
        pos[t] = rank_of(l[0][0][0])
        if abs(l[0][0][0] - l[0][0][1]) > 1e-9:
            raise Violation("the line of model %s is not vertical at its rank %s" % (t, what))
        near = sorted(nums, key=lambda v: (abs(v[1] - y) * 4 + abs(v[0] - x)))
        label[t] = float(near[0][2])
    joined = sorted((min(map(rank_of, l[0])), max(map(rank_of, l[0]))) for l in lines
                    if len(l[0]) == 2 and abs(l[1][0] - l[1][1]) < 1e-9 and l[2].get("linewidth", 0) > 3)
    return pos, label, joined, abs(xm - x1) / (len(models) - 1.0)


def compare(models, scores, pv, alpha, df, what, nan=None, incomplete=()):
    """Everything the diagram and the table of tests say, against the definitions."""
    st = Stats(models, scores, pv, what, nan)
    rt.wilcoxon, rt.friedman = st.pair, st.friedman
    before = df.copy(deep=True)
    pos, label, joined, unit = read(models, df, alpha, what)
    if not before.equals(df) or list(before.index) != list(df.index) or list(before.columns) != list(df.columns):
        raise Violation("the results table was modified %s" % what)
    rk = dict(zip(models, ranks(scores)))
    for m in models:
        if abs(pos[m] - rk[m]) > 1e-6:
            raise Violation("model %s is drawn at rank %s instead of %s %s" % (m, pos[m], rk[m], what))
        if abs(label[m] - rk[m]) > 6e-5:
            raise Violation("model %s has rank label %s instead of %s %s" % (m, label[m], rk[m], what))
    pairs = [frozenset(c) for c in itertools.combinations(range(len(models)), 2)]
    if sorted(map(sorted, st.asked)) != sorted(map(sorted, pairs)):
        raise Violation("pairs tested: %s %s" % ([[models[i] for i in p] for p in st.asked], what))
    eff = dict((p, 1.0 if nan is not None and scores[sorted(p)[0]] == scores[sorted(p)[1]] else pv[p]) for p in pairs)
    sig = holm(eff, alpha)
    # groups: maximal sets of models without significant difference
    cl = cliques(len(models), set(pairs) - sig)
    want = sorted((min(rk[models[i]] for i in c), max(rk[models[i]] for i in c)) for c in cl)
    bad = len(want) != len(joined) or any(abs(a[0] - b[0]) * unit > 0.03 or abs(a[1] - b[1]) * unit > 0.03 for a, b in zip(want, joined))
    if bad:
        # equal left ends may be ordered differently: match greedily
        rest = list(joined)
        bad = len(want) != len(joined)
        for w in want:
            h = [r for r in rest if abs(w[0] - r[0]) * unit <= 0.03 and abs(w[1] - r[1]) * unit <= 0.03]
            if not h:
                bad = True
                break
            rest.remove(h[0])
    if bad:
        raise Violation("groups joined over ranks %s instead of %s (ranks %s, p-values %s, level %s, significant %s) %s" % (
            [(round(a, 3), round(b, 3)) for a, b in joined], want, rk, dict((tuple(models[i] for i in sorted(p)), v) for p, v in eff.items()), alpha,
            [tuple(models[i] for i in sorted(p)) for p in sig], what))
    # the table itself, when it is there under its present name
    f = getattr(mods(), "_wilcoxon_holm", None)
    if f is not None:
        try:
            st.asked = []
            res = quiet(f, alpha=alpha, df_perf=df)
            tests, avg = list(res[0]), res[1]
            got = dict((frozenset((models.index(t[0]), models.index(t[1]))), bool(t[3])) for t in tests)
        except (TypeError, IndexError, ValueError, KeyError):
            got = None
        if got is not None:
            if set(got) != set(pairs):
                raise Violation("tests reported for pairs %s %s" % ([(t[0], t[1]) for t in tests], what))
            for p in pairs:
                if got[p] != (p in sig):
                    raise Violation("%s: significant %s instead of %s (p-values %s, level %s) %s" % (
                        [models[i] for i in sorted(p)], got[p], p in sig, sorted(eff.values()), alpha, what))
            for m in models:
                if abs(float(avg[m]) - rk[m]) > 1e-9:
                    raise Violation("average rank of %s is %s instead of %s %s" % (m, float(avg[m]), rk[m], what))
    return tuple(sorted(sig, key=sorted)), tuple(want)


def distinct(m, d, order=None):
    """Scores whose ranks are all distinct on average: model order[0] best."""
    base = gen(m, d, salt=55) * 0.01
    order = order or range(m)
    out = [None] * m
    for r, i in enumerate(order):
        out[i] = [round(float(0.9 - 0.1 * r + base[i, j] * 0.1), 6) for j in range(d)]
    return out


def levels3(alpha):
    return [alpha / 1000, alpha / 3 - 1e-6, alpha / 3 + 1e-6, alpha / 2, alpha / 2 + 1e-6, alpha, alpha + 1e-6]


def holm3(ctx, alpha):
    models = NAMES[:3]
    pairs = [frozenset(p) for p in itertools.combinations(range(3), 2)]
    pv = dict((p, ctx.pick(levels3(alpha), "p")) for p in pairs)
    order = ctx.pick([(0, 1, 2), (2, 0, 1)], "ranks")
    sc = distinct(3, 3, order)
    df = table(models, sc, ORDERS["stride"], "range")
    ctx.outcome = compare(models, sc, pv, alpha, df, "(3 models)") + (order,)


def holm4(ctx, first):
    """All assignments of 3 p-values; then all of 5 consecutive levels in rotated orders."""
    models = NAMES[:4]
    pairs = [frozenset(p) for p in itertools.combinations(range(4), 2)]
    alpha = 0.06
    pv = {}
    for i, p in enumerate(pairs):
        menu = [0.005, 0.0125, 0.07]
        pv[p] = menu[first[i]] if i < len(first) else ctx.pick(menu, "p")
        pv[p] += 1e-5 * i
    sc = distinct(4, 2, (2, 0, 3, 1))
    df = table(models, sc, ORDERS["reversed"], "reversed")
    ctx.outcome = compare(models, sc, pv, alpha, df, "(4 models)")


def stairs(ctx):
    """p-values at or just above each successive Holm level, in every rotation over the pairs."""
    models = NAMES[:4]
    pairs = [frozenset(p) for p in itertools.combinations(range(4), 2)]
    alpha = 0.05
    above = ctx.choose(7, "first level exceeded")
    rot = ctx.choose(6, "rotation")
    rev = ctx.bool("reversed")
    pv = {}
    for i in range(6):
        v = alpha / (6 - i) - 1e-6 if i != above else alpha / (6 - i) + 1e-6
        k = (i + rot) % 6
        pv[pairs[5 - k if rev else k]] = v
    sc = distinct(4, 3, (1, 3, 0, 2))
    df = table(models, sc, ORDERS["odd first"], "names", extra=True)
    ctx.outcome = compare(models, sc, pv, alpha, df, "(4 models, level %s exceeded)" % above) + (above, rot, rev)


def graph5(ctx, lo, hi, order):
    """Every graph of significant differences of 5 models."""
    models = NAMES
    pairs = [frozenset(p) for p in itertools.combinations(range(5), 2)]
    g = lo + ctx.choose(hi - lo, "graph")
    pv = dict((p, 0.001 + 1e-5 * i if g >> i & 1 else 0.5 + 0.01 * i) for i, p in enumerate(pairs))
    sc = distinct(5, 2, order)
    df = table(models, sc, ORDERS["model"], "range")
    ctx.outcome = compare(models, sc, pv, 0.05, df, "(5 models)")


def rank_tables(ctx, m, d, lo, step):
    menu = [0.5, 0.75, 1.0]
    k = lo + step * ctx.choose((3 ** (m * d) - lo + step - 1) // step, "table")
    v = [menu[k // 3 ** i % 3] for i in range(m * d)]
    sc = [v[i * d:(i + 1) * d] for i in range(m)]
    models = NAMES[:m]
    pairs = [frozenset(p) for p in itertools.combinations(range(m), 2)]
    df = table(models, sc, ORDERS[["model", "stride"][k % 2]], ["range", "names"][k // 2 % 2])
    compare(models, sc, dict((p, 0.9) for p in pairs), 0.05, df, "(scores %s)" % sc)
    ctx.outcome = (m, d, tuple(round(r, 9) for r in ranks(sc)))


def permuted(ctx, first):
    """All orders of the rows of a 3 x 2 table."""
    models = NAMES[:3]
    sc = [[0.1, 0.9], [0.8, 0.3], [0.5, 0.6]]
    pv = {frozenset((0, 1)): 0.01, frozenset((0, 2)): 0.2, frozenset((1, 2)): 0.02}
    perms = [p for p in itertools.permutations(range(6)) if p[0] == first]
    p = ctx.pick(perms, "order")
    df = table(models, sc, lambda n: p, ["range", "repeated", "names", "reversed"][sum(p[:3]) % 4])
    ctx.outcome = compare(models, sc, pv, 0.05, df, "(rows in order %s)" % (p,)) + (p,)


def layouts(ctx):
    m, d = ctx.pick([(3, 3), (4, 3), (5, 4), (3, 4)], "size")
    models = [NAMES[i] for i in ctx.pick([(0, 1, 2, 3, 4), (4, 2, 0, 1, 3), (3, 1, 4, 0, 2)], "names")][:m]
    sc = distinct(m, d, [(2 * i + 1) % m if m % 2 else (i + 1) % m for i in range(m)])
    pv = dict((frozenset(p), [0.001, 0.3, 0.004, 0.02, 0.9][(i * 3) % 5] + 1e-5 * i) for i, p in enumerate(itertools.combinations(range(m), 2)))
    o = ctx.pick(sorted(ORDERS), "order")
    ix = ctx.pick(["range", "reversed", "repeated", "names"], "index")
    df = table(models, sc, ORDERS[o], ix, ctx.bool("extra column"))
    ctx.outcome = compare(models, sc, pv, ctx.pick([0.05, 0.1], "level"), df, "(%s rows, %s index)" % (o, ix)) + (o, ix)


def incomplete(ctx):
    """Models that miss some dataset are left out; every other model is compared."""
    models = NAMES[:5]
    miss = ctx.pick([(0,), (2,), (4,), (0, 4), (1, 3)], "incomplete")
    how = ctx.choose(3, "missing dataset")
    sc = distinct(5, 3, (3, 1, 4, 0, 2))
    part = [[v if not (i in miss and (j == how or (i == miss[0] and j == 0))) else None for j, v in enumerate(r)] for i, r in enumerate(sc)]
    keep = [i for i in range(5) if i not in miss]
    o = ctx.pick(sorted(ORDERS), "order")
    df = table(models, part, ORDERS[o], "range")
    sub = [sc[i] for i in keep]
    pv = dict((frozenset(p), [0.001, 0.3, 0.004, 0.02, 0.9][(i * 3) % 5] + 1e-5 * i) for i, p in enumerate(itertools.combinations(range(len(keep)), 2)))
    ctx.outcome = compare([models[i] for i in keep], sub, pv, 0.05, df, "(models %s incomplete, %s rows)" % (miss, o)) + (miss, how, o)


def identical(ctx):
    """Two models with the same scores: the test gives 1 or, for asymptotic versions, nan."""
    m = ctx.pick([3, 4], "models")
    a, b = ctx.pick([p for p in itertools.combinations(range(m), 2)], "pair")
    sc = distinct(m, 3, list(range(m))[::-1])
    sc[b] = list(sc[a])
    nan = ctx.pick([1.0, float("nan")], "answer")
    pairs = [frozenset(p) for p in itertools.combinations(range(m), 2)]
    other = [p for p in pairs if p != frozenset((a, b))]
    same = [ctx.pick([0.001, 0.02, 0.4], "p") for p in other[:2]]
    pv = dict((p, (same + [0.003] * 6)[i] + 1e-5 * i) for i, p in enumerate(other))
    # identical models have identical tests against the others
    for c in range(m):
        if c not in (a, b):
            pv[frozenset((b, c))] = pv[frozenset((a, c))]
    pv[frozenset((a, b))] = 1.0
    df = table(NAMES[:m], sc, ORDERS["model"], "range")
    ctx.outcome = compare(NAMES[:m], sc, pv, 0.05, df, "(models %s and %s have equal scores)" % (NAMES[a], NAMES[b]), nan=nan) + (m, a, b, repr(nan))


def large(ctx, i):
    """9 models on 12 datasets with many equal scores."""
    m, d = 9, 12
    models = NAMES + ["m1", "zz", "a b", "M9"]
    base = gen(m, d, salt=400 + i)
    menu = [0.5, 0.625, 0.75, 0.875, 1.0]
    sc = [[menu[int(abs(base[a, j]) * 1000) % 5] + (0.001 * a if i < 2 else 0.0) for j in range(d)] for a in range(m)]
    pairs = [frozenset(p) for p in itertools.combinations(range(m), 2)]
    n = len(pairs)
    k = ctx.pick([0, 13, 35], "significant")
    pv = {}
    for q in range(n):
        pv[pairs[(q * (5, 7, 11)[i % 3]) % n if n % (5, 7, 11)[i % 3] else q]] = 0.05 / (n - q) * (0.999 if q < k else 1.001)
    global DATA
    saved, DATA = DATA, ["set %d" % j for j in range(d)]
    try:
        df = table(models, sc, ORDERS[sorted(ORDERS)[i % 4]], "names")
    finally:
        DATA = saved
    ctx.outcome = compare(models, sc, pv, 0.05, df, "(9 models, 12 datasets, table %d, %d significant)" % (i, k)) + (i, k)


# ------------------------------------------------------------------ pairwise plot
def plot(ctx, comp, d, first):
    from matplotlib import pyplot as plt
    menu = [0.25, 0.375, 0.5, 0.875]
    names = ["base"] + ["Z", "b", "a10", "a9"][:comp]
    vals = [menu[first] if i == 0 else ctx.pick(menu, "score") for i in range((comp + 1) * d)]
    sc = [vals[i * d:(i + 1) * d] for i in range(comp + 1)]
    k = sum((i + 1) * menu.index(v) for i, v in enumerate(vals))
    if comp * d <= 2:
        margin = ctx.pick([0.0, 0.125, 0.25, 0.3], "margin")
        cols = ctx.pick([1, 2, 3], "columns")
    else:
        margin = [0.0, 0.125, 0.25, 0.3][k % 4]
        cols = [1, 2, 3][k % 3]
    above = [0.25, 0.7, 0.125][k // 2 % 3]
    rows = list(range(d)) if k % 2 else list(range(d))[::-1]
    order = sorted(range(comp + 1), key=lambda i: (i * 3 + k) % 7)
    df = pd.DataFrame(dict((names[i], sc[i]) for i in order), columns=[names[i] for i in order], index=["data%d" % j for j in range(d)]).iloc[rows]
    what = "(scores %s, margin %s, max_ncols %d)" % (dict(zip(names, sc)), margin, cols)
    judge_plot(df, names, sc, margin, cols, above, what)
    ctx.outcome = (tuple(vals), margin, cols)


def judge_plot(df, names, sc, margin, cols, above, what):
    from matplotlib import pyplot as plt
    d = len(sc[0])
    before = df.copy(deep=True)
    del plt.LOG[:]
    quiet(mods().pairwise_plot, df, "base", margin=margin, show_names_above=above, max_ncols=cols)
    log = list(plt.LOG)
    del plt.LOG[:]
    if not before.equals(df) or list(before.columns) != list(df.columns):
        raise Violation("the results table was modified %s" % what)
    axes = {}
    for e in log:
        if e[0].startswith("ax["):
            axes.setdefault(e[0], []).append(e)
    seen = []
    for ax, es in axes.items():
        sca = [e for e in es if e[1] == "scatter"]
        xl = [e[2][0] for e in es if e[1] == "set_xlabel"]
        txt = [e for e in es if e[1] == "text" and "W" in str(e[2][2])]
        if len(sca) != 1 or len(xl) != 1 or len(txt) != 1:
            raise Violation("axes %s: %d scatters, labels %s, %d counts %s" % (ax, len(sca), xl, len(txt), what))
        c = xl[0]
        if c not in names[1:] or c in seen:
            raise Violation("axes %s show %r (models %s) %s" % (ax, c, names[1:], what))
        seen.append(c)
        x, y = sc[names.index(c)], sc[0]
        pts = sorted(zip([float(v) for v in sca[0][2][0]], [float(v) for v in sca[0][2][1]]))
        if pts != sorted(zip(x, y)):
            raise Violation("points %s of the plot against %s instead of %s %s" % (pts, c, sorted(zip(x, y)), what))
        nums = [int(v) for v in re.findall(r"-?\d+", str(txt[0][2][2]))]
        win = sum(1 for a, b in zip(x, y) if b - a > margin)
        loss = sum(1 for a, b in zip(x, y) if a - b > margin)
        want = [win, d - win - loss, loss]
        if nums != want:
            raise Violation("wins, draws and losses against %s are %s instead of %s %s" % (c, nums, want, what))
        for e in es:
            if e[1] == "set_ylabel" and e[2][0] != "base":
                raise Violation("y axis labelled %r %s" % (e[2][0], what))
        shown = sorted((str(e[2][0]), float(e[2][1][0]), float(e[2][1][1])) for e in es if e[1] == "annotate" and str(e[2][0]).startswith("data"))
        need = sorted(("data%d" % j, x[j], y[j]) for j in range(d) if abs(x[j] - y[j]) > above)
        if shown != need:
            raise Violation("datasets named on the plot against %s: %s instead of %s (above %s) %s" % (c, shown, need, above, what))
    if sorted(seen) != sorted(names[1:]):
        raise Violation("models plotted: %s instead of %s %s" % (sorted(seen), sorted(names[1:]), what))


def plot_rows(ctx):
    """Counts and points do not depend on the order of rows and columns; 5 competitors, every number of columns."""
    comp = ctx.pick([1, 2, 3, 4, 5], "competitors")
    cols = 1 + ctx.choose(6, "columns")
    d = 4
    names = ["base"] + ["Z", "b", "a10", "a9", "c"][:comp]
    sc = [[(3 * i + 5 * j + i * j) % 8 / 8.0 for j in range(d)] for i in range(comp + 1)]
    rows = ctx.pick(list(itertools.permutations(range(d))), "rows")
    df = pd.DataFrame(dict(zip(names, sc)), columns=names if rows[0] % 2 else names[::-1], index=["data%d" % j for j in range(d)]).iloc[list(rows)]
    judge_plot(df, names, sc, 0.125, cols, 0.5, "(%d competitors, max_ncols %d, rows %s)" % (comp, cols, rows))
    ctx.outcome = (comp, cols, rows)


def jobs(tier):
    q = tier == "quick"
    out = []
    for a in (0.05, 0.1):
        out.append(("holm 3 models, level %s" % a, "holm3", dict(alpha=a), 100))
    for f in itertools.product(range(3), repeat=2):
        out.append(("holm 4 models %s" % (f,), "holm4", dict(first=f), 30))
    out.append(("stairs", "stairs", {}, 20))
    orders = [(0, 1, 2, 3, 4)] if q else [(0, 1, 2, 3, 4), (2, 4, 1, 0, 3), (3, 0, 4, 2, 1)]
    for o in orders:
        for lo in range(0, 1024, 64):
            out.append(("graphs of 5 models %s %d" % (o, lo), "graph5", dict(lo=lo, hi=lo + 64, order=o), 30))
    out += [("ranks 3 x 2 %d" % i, "rank_tables", dict(m=3, d=2, lo=i, step=8), 15) for i in range(8)]
    step = 20 if q else 3
    n = 4
    out += [("ranks 3 x 3 %d" % i, "rank_tables", dict(m=3, d=3, lo=i * step, step=step * n), 30) for i in range(n)]
    out += [("ranks 4 x 2 %d" % i, "rank_tables", dict(m=4, d=2, lo=i * step, step=step * n), 15) for i in range(n)]
    out += [("row orders %d" % i, "permuted", dict(first=i), 30) for i in range(6)]
    out += [("layouts", "layouts", {}, 60), ("incomplete", "incomplete", {}, 20), ("identical", "identical", {}, 20)]
    for i in range(4):
        out += [("plot 1 x 2 %d" % i, "plot", dict(comp=1, d=2, first=i), 30), ("plot 2 x 1 %d" % i, "plot", dict(comp=2, d=1, first=i), 20),
                ("plot 3 x 1 %d" % i, "plot", dict(comp=3, d=1, first=i), 10), ("plot 4 x 1 %d" % i, "plot", dict(comp=4, d=1, first=i), 30)]
    out += [("large %d" % i, "large", dict(i=i), 200) for i in range(4)]
    out.append(("plot rows", "plot_rows", {}, 60))
    return out
