# -*- coding: utf-8 -*-
"""C31: class labels are names: their values, order, type and container do not matter."""
import itertools

from .compose import *

BOUNDS = {
    "quick": "all splits of 5 training series (4 for the classifiers) in up to 3 classes x 14 sets of labels (integers, unsigned, negative, floats, booleans, "
             "strings, long strings with a common prefix, objects, 300 and 70000 apart) x all assignments of the labels to the classes x 4 containers; transformer with every proportion of samples in "
             "a menu, ridge classifier, ensemble (a few splits); 4 kinds of data; all training orders of the names",
    "thorough": "6 series (5 for the classifiers), up to 4 classes, all splits for the ensemble"}

NAMES = dict(LABELS)
NAMES.update({
    "floats": np.array([0.5, -1.5, 1e9, 0.25]), "far": np.array([0, 300, 70000, 2 ** 40]), "prefixes": np.array(["a", "aa", "", "a "]),
    "sentences": np.array(["a rather long name of a class, number one", "a rather long name of a class, number two", "a rather", "a rather long name"]),
    "mixed case": np.array(["A", "a", "B", "b"], dtype=object)})
FORMS = {"array": lambda y: y, "list": lambda y: list(y), "column": lambda y: y.reshape(-1, 1), "readonly": None}


def given(y, form):
    if form == "readonly":
        y = y.copy()
        y.flags.writeable = False
        return y
    return FORMS[form](y)


_ref = {}


def series(kind, n):
    return data(kind, [8 + (3 * i) % 4 for i in range(n)], [0] * n, 2, salt=3100, scale=2.0)


def tests(kind):
    return data(kind, [9, 8, 11, 10, 12, 8, 9], [0] * 7, 2, salt=3101, scale=2.0)


def ranks(names):
    return np.unique(names, return_inverse=True)[1].ravel()


def transformer(ctx, kind, n, kmax, names, opts):
    lab = NAMES[names]
    split = ctx.pick(labelings(n, min(kmax, len(lab))), "split")
    K = max(split) + 1
    order = ctx.pick(list(itertools.permutations(range(len(lab)), K)) if len(lab) < 4 or K < 3 else
                     list(itertools.permutations(range(K))) + list(itertools.permutations(range(len(lab) - K, len(lab))))[::3], "names")
    form = ctx.pick(sorted(FORMS), "container") if order[0] == 0 and opts in (0, 3) else "array"
    D = series(kind, n)
    y = lab[[order[c] for c in split]]
    o = dict(n_shapelets=6, shapelet_lengths=[3, 4], random_state=7, phase_invariance=opts == 1, **[{}, {}, dict(n_samples=0.6), dict(n_samples=1.5)][opts])

    def fit(yy):
        return freeze(R_DST(**o).fit(D.X, yy).shapelets_)
    before = y.copy()
    got = fit(given(y, form))
    if not (before == y).all():
        raise Violation("fit modified the labels %s" % before.tolist())
    # without subsampling any numbering of the classes is equivalent; the draw of a subset follows the order of the names
    yy = np.array(split) if opts < 2 else ranks(y)
    key = (kind, opts, n, tuple(yy))
    if key not in _ref:
        _ref[key] = fit(yy)
    if not same_shapelets(got, _ref[key]):
        raise Violation("the shapelets for labels %s (%s) differ from those for %s (%s, %s)" % (y.tolist(), form, yy.tolist(), kind, o))
    ctx.outcome = (kind, opts, names, tuple(split), order, form, digest(got))


def classifier(ctx, kind, model, n, kmax, names, few):
    lab = NAMES[names]
    splits = labelings(n, min(kmax, len(lab)))
    split = ctx.pick([s for s in splits if not few or s in (splits[0], splits[-1], splits[len(splits) // 2])], "split")
    K = max(split) + 1
    order = ctx.pick(list(itertools.permutations(range(len(lab)), K)) if len(lab) < 4 or K < 3 and not few else
                     list(itertools.permutations(range(K))) + list(itertools.permutations(range(len(lab) - K, len(lab))))[::2], "names")
    form = ctx.pick(sorted(FORMS), "container") if order[0] == 0 and not few else "array"
    D, T = series(kind, n), tests(kind)
    o = dict(random_state=8, shapelet_lengths=[3, 5])

    def run(yy, truth):
        if model == "ridge":
            from convst.classifiers import R_DST_Ridge
            est = R_DST_Ridge(n_shapelets=6, **o)
        else:
            from convst.classifiers import R_DST_Ensemble
            est = R_DST_Ensemble(n_shapelets_per_estimator=5, n_jobs=2, **o)
        est.fit(D.X, yy)
        p = np.asarray(est.predict(T.X))
        w = [float(v) for v in est.model_weights] if model == "ensemble" else []
        return p, w, float(est.score(T.X, truth[p]))
    y = lab[[order[c] for c in split]]
    r = ranks(y)
    rank = {str(v): int(i) for v, i in zip(y.tolist(), r)}
    if form == "column":
        form = "list"
    # truth: whatever the prediction says, for every second series; another name for the others
    names_ = sorted(set(y.tolist()))

    class Truth(object):
        def __init__(self, all_):
            self.all = all_

        def __getitem__(self, p):
            p = list(p.tolist())
            return np.array([v if i % 2 else self.all[(self.all.index(v) + 1) % len(self.all)] for i, v in enumerate(p)], dtype=np.asarray(lab).dtype
                            if self.all is names_ else int)
    key = (kind, model, n, tuple(r))
    if key not in _ref:
        _ref[key] = run(r, Truth(sorted(set(r.tolist()))))
    want, w, s = _ref[key]
    got, w2, s2 = run(given(y, form), Truth(names_))
    what = "(labels %s, %s, %s %s)" % (y.tolist(), form, model, kind)
    if any(str(v) not in rank for v in got.tolist()):
        raise Violation("predicted labels %s are not training labels %s" % (sorted(set(map(str, got.tolist()))), what))
    if [rank[str(v)] for v in got.tolist()] != want.tolist():
        raise Violation("predictions %s, but %s for the classes numbered in the order of their names %s" % (got.tolist(), want.tolist(), what))
    if w != w2 or s != s2:
        raise Violation("weights %s and score %s, but %s and %s for numbered classes %s" % (w2, s2, w, s, what))
    # another order of the names: the same decisions
    first = (kind, model, n, tuple(split))
    if first not in _ref:
        _ref[first] = run(np.array(split), Truth(list(range(K))))
    back = {str(v): c for v, c in zip(y.tolist(), split)}
    if [back[str(v)] for v in got.tolist()] != _ref[first][0].tolist():
        raise Violation("predictions %s, but classes %s when they are named in another order %s" % (got.tolist(), _ref[first][0].tolist(), what))
    ctx.outcome = (kind, model, names, tuple(split), order, form, tuple(map(str, got.tolist())))


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        for names in sorted(NAMES):
            for opts in range(4):
                out.append(("transformer %s %s options %d" % (kind, names, opts), "transformer",
                            dict(kind=kind, n=6 if t else 5, kmax=4 if t else 3, names=names, opts=opts), 200))
            for model in ("ridge", "ensemble"):
                out.append(("%s %s %s" % (model, kind, names), "classifier",
                            dict(kind=kind, model=model, n=5 if t else 4, kmax=4 if t else 3, names=names, few=not t and model == "ensemble"), 300))
    return out
