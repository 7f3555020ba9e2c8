# -*- coding: utf-8 -*-
"""C20: resampling keeps every sample once, with its label and class counts.  (real pandas)"""
from .common import *
from .common import gen
import copy

BOUNDS = {
    "quick": "_resample: all labelings of train and test parts with the same classes, total size <= 5 (6 for two classes of 3), all outcomes of the "
             "shuffles, 4 kinds of data and 6 label sets; seeds 0-7 for larger sets (up to 40 + 70 series); cross-validation: 4 kinds + one-sided variable "
             "length, 1-4 folds, pipelines that do or do not modify their data, all correct/wrong prediction patterns, 1-3 scorers; grid search: same-length "
             "data, 1-4 folds, 2 candidates",
    "thorough": "total size <= 6 (7 for two classes)"}

LABELS = {"range": np.array([0, 1, 2, 3]), "gaps": np.array([5, -3, 100, 7]), "strings": np.array(["b", "a", "Zz", "c"]),
          "long": np.array(["10", "9", "-1", "longer label"]), "one_based": np.array([1, 2, 3, 4]), "float": np.array([2.0, 0.5, -1.0, 7.0])}


def utils():
    from convst.utils import experiments_utils as e
    return e


def make(kind, n, salt=0):
    nch = 1 if kind in UNI else 2
    return [gen(nch, 4 + (i % 3 if kind in VAR else 0), salt=2000 + 10 * salt + i) for i in range(n)]


def key(x):
    return np.ascontiguousarray(np.asarray(x, dtype=float)).tobytes()


def plain(v):
    return v.item() if hasattr(v, "item") else v


def check_parts(orig, parts, what):
    """orig, parts: (X_train, y_train, X_test, y_test); same pairs, same counts per part."""
    for X, y in ((parts[0], parts[1]), (parts[2], parts[3])):
        if len(X) != len(y):
            raise Violation("%d series with %d labels %s" % (len(X), len(y), what))
    for i in (0, 2):
        if isinstance(orig[0], np.ndarray) != isinstance(parts[i], np.ndarray):
            raise Violation("container %s instead of %s %s" % (type(parts[i]), type(orig[i]), what))

    def pairs(t):
        return sorted([(key(x), plain(l)) for x, l in zip(t[0], t[1])] + [(key(x), plain(l)) for x, l in zip(t[2], t[3])])
    if pairs(orig) != pairs(parts):
        names = dict((key(x), i) for i, x in enumerate(list(orig[0]) + list(orig[2])))
        raise Violation("the resample is no redistribution of the (series, label) pairs: train %s test %s instead of labels %s + %s %s" % (
            [(names.get(key(x)), plain(l)) for x, l in zip(parts[0], parts[1])],
            [(names.get(key(x)), plain(l)) for x, l in zip(parts[2], parts[3])], list(orig[1]), list(orig[3]), what))
    for i, nm in ((1, "train"), (3, "test")):
        if sorted(map(plain, orig[i])) != sorted(map(plain, parts[i])):
            raise Violation("class counts of the %s part changed: labels %s instead of %s %s" % (
                nm, sorted(map(plain, parts[i])), sorted(map(plain, orig[i])), what))


def split_labels(ntr, nte, kmax):
    """All label vectors of both parts with the same classes, numbered by first occurrence."""
    out = []

    def rec(pre, k):
        if len(pre) == ntr + nte:
            if set(pre[:ntr]) == set(pre[ntr:]):
                out.append(tuple(pre))
            return
        for c in range(min(k + 1, kmax)):
            rec(pre + [c], max(k, c + 1))
    rec([], 0)
    return out


def resample(ctx, kind, ntr, lab, labels, acc):
    y = LABELS[labels][list(lab)]
    S = make(kind, len(lab))
    orig = (as_kind(kind, S[:ntr]), y[:ntr].copy(), as_kind(kind, S[ntr:]), y[ntr:].copy())
    keep = [digest(o) for o in orig]
    rt.rng = rt.ChoiceRNG(ctx)
    try:
        parts = utils()._resample(orig[0], orig[1], orig[2], orig[3], None)
    finally:
        rt.rng = None
    what = "(%s, labels %s | %s)" % (kind, y[:ntr].tolist(), y[ntr:].tolist())
    if [digest(o) for o in orig] != keep:
        raise Violation("the original split was modified %s" % what)
    check_parts(orig, parts, what)
    names = dict((key(x), i) for i, x in enumerate(S))
    chosen = tuple(sorted(names[key(x)] for x in parts[0]))
    acc.setdefault("reached", set()).add(chosen)
    for p in (parts[0], parts[2]):
        for x in p:
            x[...] = 77.0
    if [digest(o) for o in orig] != keep:
        raise Violation("writing into the resample changes the originals %s" % what)
    ctx.outcome = (kind, lab, labels, chosen)


def resample_finish(acc, st, kind, ntr, lab, labels):
    want = [()]
    for c in sorted(set(lab)):
        ids = [i for i in range(len(lab)) if lab[i] == c]
        k = sum(1 for i in ids if i < ntr)
        want = [w + s for w in want for s in itertools.combinations(ids, k)]
    want = set(tuple(sorted(w)) for w in want)
    if acc["reached"] != want:
        raise Violation("train parts reached by the shuffles: %d of the %d class-preserving ones (%s, labels %s): missing %s" % (
            len(acc["reached"]), len(want), kind, lab, sorted(want - acc["reached"])[:3]))


def seeds(ctx, kind, labels):
    seed = ctx.choose(8, "seed")
    ntr = ctx.pick([4, 6, 9, 40], "train size")
    lab = [0, 1, 2, 0, 1, 2, 2, 0, 1][:ntr] + [2, 2, 1, 0, 0, 1, 0]
    if ntr == 40:
        lab = [(i * i + i // 3) % 4 for i in range(110)]
    y = LABELS[labels][lab]
    S = make(kind, len(lab), salt=1)
    orig = (as_kind(kind, S[:ntr]), y[:ntr].copy(), as_kind(kind, S[ntr:]), y[ntr:].copy())
    keep = [digest(o) for o in orig]
    np.random.seed(seed + 1)
    a = utils()._resample(orig[0], orig[1], orig[2], orig[3], seed)
    np.random.rand(5)
    other = utils()._resample(orig[0], orig[1], orig[2], orig[3], seed + 1)
    b = utils()._resample(orig[0], orig[1], orig[2], orig[3], seed)
    what = "(%s, seed %d, labels %s)" % (kind, seed, labels)
    check_parts(orig, a, what)
    check_parts(orig, other, what)
    if [digest(o) for o in orig] != keep:
        raise Violation("the original split was modified %s" % what)
    for p, q in zip(a, b):
        if len(p) != len(q) or any(key(x) != key(z) for x, z in zip(p, q)) if np.ndim(p[0]) else list(p) != list(q):
            raise Violation("two resamples with one seed differ %s" % what)
    ctx.outcome = (kind, seed, ntr, tuple(key(x) for x in a[0]))


# ------------------------------------------------------------------ cross-validation
class Pipe(object):
    """Records what it is given; predicts the label stored for a series, wrong for the series in `wrong`."""

    def __init__(self, truth, wrong, modify, log=None):
        self.truth, self.wrong, self.modify = truth, wrong, modify
        self.log = [] if log is None else log

    def get_params(self, deep=True):
        return dict(truth=self.truth, wrong=self.wrong, modify=self.modify, log=self.log)

    def set_params(self, **k):
        self.__dict__.update(k)
        return self

    def fit(self, X, y):
        self.log.append(("fit", [np.array(x, dtype=float) for x in X], np.array(y), isinstance(X, np.ndarray)))
        if self.modify:
            for x in X:
                x[...] = x * 0 - 5.0
            y[...] = 0
        return self

    def predict(self, X):
        self.log.append(("predict", [np.array(x, dtype=float) for x in X], None, isinstance(X, np.ndarray)))
        out = []
        for x in X:
            t, i = self.truth.get(key(x), (-1, -1))
            out.append(t if i not in self.wrong else t + 1)
        if self.modify:
            for x in X:
                x[...] = 1e3
        return np.array(out)


def archive(kind, ntr, lab):
    S = make({"half": "univariate_variable"}.get(kind, kind), len(lab), salt=2)
    if kind == "half":                                   # a train part of one length, a test part of several
        S = [s[:, :4] for s in S[:ntr]] + S[ntr:]
    names = np.array(["c", "a", "b", "d"])[list(lab)]
    cont = [as_kind("univariate" if kind == "half" else kind, S[:ntr]),
            as_kind("univariate_variable" if kind == "half" else kind, S[ntr:])]

    def answer(name, split):
        if name != "Some Dataset":
            raise Violation("dataset %r asked instead of 'Some Dataset'" % (name,))
        i = ["train", "test"].index(split.lower())
        return copy.deepcopy(cont[i]), names[:ntr].copy() if i == 0 else names[ntr:].copy()
    enc = {c: j for j, c in enumerate(sorted(set(names)))}
    y = np.array([enc[c] for c in names])
    return S, y, answer


def first_miss(y_true, y_pred):
    return float(sum((i + 1) * (a != b) for i, (a, b) in enumerate(zip(y_true, y_pred))))


def signed(y_true, y_pred):
    return float(np.sum(np.asarray(y_true) * 10.0 - np.asarray(y_pred)))


SPLITS = [(3, (0, 1, 0, 1, 0)), (4, (0, 1, 2, 0, 2, 1, 0, 1)), (2, (1, 0, 0, 1, 1, 0))]


def folds_of(log):
    out = []
    for e in log:
        if e[0] == "fit":
            out.append([e[1], e[2], None])
        else:
            out[-1][2] = e[1]
    return out


def cross(ctx, kind, modify):
    from sklearn.metrics import accuracy_score
    ntr, lab = ctx.pick(SPLITS, "split")
    n_split = 1 + ctx.choose(4, "folds")
    S, y, answer = archive(kind, ntr, lab)
    truth = dict((key(s), (int(y[i]), i)) for i, s in enumerate(S))
    wrong = tuple(i for i in range(len(S)) if ctx.bool("wrong")) if len(S) <= 5 else ctx.pick(
        [(), (0,), (len(S) - 1,), (0, ntr), tuple(range(ntr)), tuple(range(0, len(S), 2))], "wrong")
    which = ctx.pick([None, ["accuracy", "signed"], ["signed", "first_miss", "accuracy"]], "scorers") if len(S) > 5 else \
        [None, ["accuracy", "signed", "first_miss"]][sum(wrong) % 2]
    f = dict(accuracy=accuracy_score, signed=signed, first_miss=first_miss)
    what = "(%s, labels %s | %s, %d folds)" % (kind, y[:ntr].tolist(), y[ntr:].tolist(), n_split)

    def run(mod, n):
        rt.archive = answer
        p = Pipe(truth, wrong, mod)
        cv = utils().cross_validate_UCR_UEA(n, "Some Dataset", **({} if which is None else dict(scorers={w: f[w] for w in which})))
        return cv.score(p), folds_of(p.log)
    table, folds = run(modify, n_split)
    if len(folds) != n_split:
        raise Violation("%d folds were evaluated %s" % (len(folds), what))
    orig = (S[:ntr], y[:ntr], S[ntr:], y[ntr:])
    for i, (Xtr, ytr, Xte) in enumerate(folds):
        if Xte is None:
            raise Violation("fold %d: no prediction of the test part %s" % (i, what))
        if any(key(x) not in truth for x in Xtr + Xte):
            raise Violation("fold %d contains a series that is none of the dataset's (an earlier fold changed it?) %s" % (i, what))
        yte = np.array([truth[key(x)][0] for x in Xte])
        check_parts(orig, (Xtr, ytr, Xte, yte), "fold %d %s" % (i, what))
        if i == 0 and ([key(x) for x in Xtr] != [key(x) for x in S[:ntr]] or [key(x) for x in Xte] != [key(x) for x in S[ntr:]]):
            raise Violation("the first fold is not the original split %s" % what)
        pred = np.array([truth[key(x)][0] + (truth[key(x)][1] in wrong) for x in Xte])
        for w in which or ["accuracy"]:
            got = float(table.loc[i, w])
            want = float(f[w](yte, pred))
            if abs(got - want) > 1e-12:
                raise Violation("fold %d: %s is %s instead of %s (truth %s, predicted %s) %s" % (i, w, got, want, yte.tolist(), pred.tolist(), what))
    if sorted(int(i) for i in table.index) != list(range(n_split)):
        raise Violation("rows %s for %d folds %s" % (list(table.index), n_split, what))
    # a fold does not depend on the others nor on what the pipeline does with its data
    _, alone = run(not modify, 4 if n_split < 4 else 2)
    for i in range(min(len(alone), n_split)):
        a, b = folds[i], alone[i]
        if [key(x) for x in a[0]] != [key(x) for x in b[0]] or [key(x) for x in a[2]] != [key(x) for x in b[2]] or list(a[1]) != list(b[1]):
            raise Violation("fold %d depends on the number of folds or on the pipeline modifying its data %s" % (i, what))
    ctx.outcome = (kind, lab, n_split, wrong, tuple(table[(which or ["accuracy"])[0]].tolist()))


def cross_resample(ctx, kind):
    """Fold i is the resample with seed i of the original split."""
    ntr, lab = ctx.pick(SPLITS, "split")
    S, y, answer = archive(kind, ntr, lab)
    truth = dict((key(s), (int(y[i]), i)) for i, s in enumerate(S))
    rt.archive = answer
    p = Pipe(truth, (), False)
    utils().cross_validate_UCR_UEA(12, "Some Dataset").score(p)
    folds = folds_of(p.log)
    X = [as_kind(kind, S[:ntr]), as_kind(kind, S[ntr:])]
    for i in range(1, 12):
        r = utils()._resample(X[0], y[:ntr], X[1], y[ntr:], i)
        if [key(x) for x in r[0]] != [key(x) for x in folds[i][0]] or [key(x) for x in r[2]] != [key(x) for x in folds[i][2]]:
            raise Violation("fold %d is not the resample of seed %d of the original split (%s, %s)" % (i, i, kind, lab))
    if len(set(tuple(key(x) for x in f[0]) for f in folds)) < 2:
        raise Violation("all the folds are the same split (%s, %s)" % (kind, lab))
    ctx.outcome = (kind, lab)


def grid(ctx, kind):
    ntr, lab = ctx.pick(SPLITS, "split")
    n = 1 + ctx.choose(4, "folds")
    S, y, answer = archive(kind, ntr, lab)
    rt.archive = answer
    X = as_kind(kind, S)
    cv = utils()._sklearn_cv(n, "Some Dataset")
    if cv.get_n_splits(X, y) != n or cv.get_n_splits() != n:
        raise Violation("get_n_splits is not %d" % n)
    got = list(cv.split(X, y))
    what = "(%s, labels %s, %d folds)" % (kind, list(lab), n)
    if len(got) != n:
        raise Violation("%d folds %s" % (len(got), what))
    orig = (X[:ntr], y[:ntr], X[ntr:], y[ntr:])
    for i, (a, b) in enumerate(got):
        a, b = [int(v) for v in a], [int(v) for v in b]
        if sorted(a + b) != list(range(len(S))):
            raise Violation("fold %d: indices %s and %s are no partition %s" % (i, a, b, what))
        check_parts(orig, (X[a], y[a], X[b], y[b]), "fold %d %s" % (i, what))
        if i == 0 and (a != list(range(ntr)) or b != list(range(ntr, len(S)))):
            raise Violation("the first fold %s | %s is not the original split %s" % (a, b, what))
        if i > 0:
            r = utils()._resample(X[:ntr], y[:ntr], X[ntr:], y[ntr:], i)
            if [key(x) for x in r[0]] != [key(X[j]) for j in a] or [key(x) for x in r[2]] != [key(X[j]) for j in b]:
                raise Violation("fold %d: the indices do not select the series of the resample with seed %d %s" % (i, i, what))
    # the whole search
    truth = dict((key(s), (int(y[i]), i)) for i, s in enumerate(S))
    wrong = [(), (0,), (ntr, 1)]
    log = []

    class G(Pipe):
        def __init__(self, truth=truth, wrong=(), modify=False, log=log):
            Pipe.__init__(self, truth, wrong, modify, log)
    res = utils().grid_search_UCR_UEA(n, "Some Dataset", 1).score(G, {"wrong": wrong})
    for c in range(len(wrong)):
        for i, (a, b) in enumerate(got):
            want = float(np.mean([int(j) not in wrong[c] for j in b]))
            s = float(res["split%d_test_score" % i][c])
            if abs(s - want) > 1e-12:
                raise Violation("fold %d of candidate %s scored %s instead of %s %s" % (i, wrong[c], s, want, what))
    ctx.outcome = (kind, lab, n, repr(got))


def jobs(tier):
    q = tier == "quick"
    out = []
    tot = 5 if q else 6
    lbs = sorted(LABELS)
    k = 0
    for n in range(2, tot + 2):
        for ntr in range(1, n):
            for lab in split_labels(ntr, n - ntr, 3):
                big = max(lab.count(c) for c in set(lab))
                if big > (4 if q else 5) or (n == tot + 1 and (len(set(lab)) != 2 or big > 3)):
                    continue
                for kind in KINDS:
                    k += 1
                    if n >= tot and KINDS.index(kind) != k % 4 and q:
                        continue
                    lb = lbs[k % len(lbs)]
                    out.append(("resample %s %d %s %s" % (kind, ntr, "".join(map(str, lab)), lb), "resample",
                                dict(kind=kind, ntr=ntr, lab=lab, labels=lb), 1 + n))
    for kind in KINDS:
        for lb in lbs:
            out.append(("seeds %s %s" % (kind, lb), "seeds", dict(kind=kind, labels=lb), 3))
    for kind in KINDS + ("half",):
        for m in (False, True):
            out.append(("cross-validation %s %s" % (kind, "modifying" if m else "reading"), "cross", dict(kind=kind, modify=m), 50))
    for kind in KINDS:
        out.append(("cross-validation seeds %s" % kind, "cross_resample", dict(kind=kind), 5))
    for kind in ("univariate", "multivariate"):
        out.append(("grid %s" % kind, "grid", dict(kind=kind), 10))
    return out
