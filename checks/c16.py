# -*- coding: utf-8 -*-
"""C16: the ensemble is a weighted soft vote that returns training labels."""
from sklearn.base import BaseEstimator, TransformerMixin

from .compose import *

BOUNDS = {
    "quick": "vote: 1-3 members x 2-3 classes x 9 label sets x leave-one-out answers (all answers for one member, 5 patterns per member "
             "otherwise, two regularisation strengths) x 4 exponents x jobs 1/2/3/-1/None x all orders of execution of the members, each "
             "on the batch of all combinations of 6 decision values per member; members: real transformer, every option alone, four kinds, "
             "default and custom (fitted) input transformers, 1 to 6 of them; 6 members on 36 series of 9 classes",
    "thorough": "4 members, pairs of options"}


class Code(BaseEstimator, TransformerMixin):
    """Marks the series with the number of the member."""

    def __init__(self, member=0):
        self.member = member

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        X = np.array(X)
        X[:, 0, 1] = self.member
        return X


class Centre(BaseEstimator, TransformerMixin):
    """Subtracts a statistic of the training data; works on every container."""

    def __init__(self, factor=1.0):
        self.factor = factor

    def fit(self, X, y=None):
        self.m_ = float(np.mean([np.mean(x) for x in X])) + 0.5
        return self

    def transform(self, X):
        out = [(np.asarray(x, dtype=float) - self.m_) * self.factor for x in X]
        return np.array(out) if isinstance(X, np.ndarray) and X.dtype != object else out


def ensemble(**k):
    from convst.classifiers import R_DST_Ensemble
    return R_DST_Ensemble(**k)


def softmax(d):
    d = np.asarray(d, dtype=float)
    if d.ndim == 1:
        d = np.c_[-d, d]
    e = np.exp(d - d.max(axis=1, keepdims=True))
    return e / e.sum(axis=1, keepdims=True)


def check_vote(pred, D, W, classes, what):
    S = sum(softmax(d) * w for d, w in zip(D, W))
    pred = np.asarray(pred)
    if pred.shape != (len(S),):
        raise Violation("%s predictions for %d series %s" % (pred.shape, len(S), what))
    for i, s in enumerate(S):
        ok = [classes[j] for j in range(len(classes)) if s[j] >= s.max() - 1e-9]
        if not any(pred[i] == o and np.asarray(pred[i]).dtype.kind == np.asarray(o).dtype.kind for o in ok):
            raise Violation("prediction %r instead of %s: decision values %s, weights %s, sums %s, classes %s %s" % (
                pred[i], ok, [np.asarray(d)[i].tolist() for d in D], W, s.tolist(), list(classes), what))


class Order(object):
    """Executes the tasks in the order chosen by the explorer, returns the results in the order of submission."""

    def __init__(self, ctx):
        self.ctx = ctx

    def __call__(self, tasks, n_jobs):
        if n_jobs is not None and (n_jobs == 0 or n_jobs != int(n_jobs)):
            raise Violation("n_jobs=%r given to joblib" % (n_jobs,))
        res, left = [None] * len(tasks), list(range(len(tasks)))
        while left:
            i = left.pop(self.ctx.choose(len(left), "next member") if len(left) > 1 else 0)
            f, a, k = tasks[i]
            res[i] = f(*a, **k)
        return res


MENU2 = [-3.1, -0.2, 0.0, 0.35, 2.4, 900.0]
MENU3 = [(2.0, 0.1, -1.0), (-1.0, 0.9, 0.7), (0.1, -2.0, 1.9), (0.2, 0.21, 0.19), (-800.0, 5.0, 900.0), (-1.1, -1.3, -0.7)]


def vote(ctx, members, K, labels, jobs, a_w, full):
    lab = LABELS[labels][:K]
    n = 4 if K == 2 else 5
    y = lab[[0, 1, K - 1, 0, 1][:n]]
    classes = np.unique(y)
    ids = np.array([list(classes).index(v) for v in y])
    menu = MENU2 if K == 2 else MENU3
    if full:
        loo = [tuple(ctx.choose(K, "answer") for _ in range(n)) for _ in range(members)]
    else:
        pats = [tuple(ids), tuple(ids[::-1]), tuple((ids + 1) % K), tuple([0] * n), tuple(list(ids[:-1]) + [(ids[-1] + 1) % K])]
        loo = [ctx.pick(pats, "answers") for _ in range(members)]
    worse = [tuple((np.array(p) + 1) % K) for p in loo]         # answers at the other regularisation strength
    swap = (sum(loo[0]) + members) % 2
    combos = list(itertools.product(range(len(menu)), repeat=members))

    def code(X):
        return np.round(np.asarray(X)[:, 0] * SD + MU).astype(int)
    train_ids = np.arange(n) * 1.0
    MU, SD = train_ids.mean(), train_ids.std()

    def feats(X):
        m = int(X[0][0, 1])
        r = np.array([x[0, 0] for x in X])
        return np.stack([r] + [r * (j + 2) for j in range(m)], axis=1)

    def cv(model, X, Y, i):
        m = X.shape[1] - 1
        p = (loo if i == swap else worse)[m]
        if Y.shape[1] == 1:
            return [0.7 * (2 * v - 1) for v in p]
        return np.array([[0.9 if j == v else -0.3 - 0.1 * j for j in range(K)] for v in p])

    def decide(model, X):
        m = X.shape[1] - 1
        return [menu[combos[r - 1000][m]] if r >= 1000 else (0.1 if K == 2 else (0.0, 0.1, 0.2)[:K]) for r in code(X)]

    series = lambda rows: np.array([[[float(r), 0.0, 0.0, 0.0]] for r in rows])
    rt.ridge_cv, rt.ridge_decide = cv, decide
    rt.joblib_runner = Order(ctx) if jobs == "order" else None
    with Recorder(fit=lambda e, X, y: None, transform=lambda e, X: feats(X)) as rec:
        est = ensemble(input_transformers=[Code(m) for m in range(members)], proba_norm=[0.5] * members,
                       n_shapelets_per_estimator=1, a_w=a_w, n_jobs=3 if jobs == "order" else jobs, alphas_ridge=[0.5, 2.0],
                       random_state=0)
        est.fit(series(range(n)), y)
        pred = est.predict(series(range(1000, 1000 + len(combos))))
        first = est.predict(series([1000 + len(combos) - 1]))
        models = {m[2].shape[1] - 1: m[1] for m in rec.models()}
    if sorted(models) != list(range(members)):
        raise Violation("linear models were fitted for members %s of %d" % (sorted(models), members))
    W, D = [], []
    for m in range(members):
        best = list(models[m].alphas).index(models[m].alpha_)
        p = (loo if best == swap else worse)[m]
        acc = float(np.mean([classes[v] == t for v, t in zip(p, y)]))
        W.append(acc ** a_w)
        D.append(np.array([menu[c[m]] for c in combos]))
    what = "(leave-one-out answers %s, labels %s)" % (loo, y.tolist())
    check_vote(pred, D, W, classes, what)
    check_vote(first, [d[-1:] for d in D], W, classes, what + " (alone)")
    ctx.outcome = (members, K, labels, a_w, tuple(W), pred.tolist())


# ------------------------------------------------------------------ real members
OPTIONS = {
    "none": [], "phase_invariance": [True], "shp_alpha": [0.0, 0.9], "normalize_output": [True], "n_samples": [0.5],
    "n_shapelets_per_estimator": [2], "shapelet_lengths": [[3], [0.4]], "shapelet_lengths_bounds": [[3, 5]],
    "lengths_bounds_reduction": [0.9], "prime_dilations": [True], "percentiles": [[0, 90]], "min_len": [4],
    "max_channels": [1], "class_weight": ["balanced", "custom"], "fit_intercept": [False], "alphas_ridge": [[50.0], [1, 10]],
    "n_jobs": [2, 3, -1, None], "transform_type": ["same"], "a_w": [0, 1], "proba_norm": [[0.0, 1.0, 0.5], [1.0, 0.0, 0.0]],
    "prefer": ["threads"],
}
RENAME = {"shp_alpha": "alpha", "n_shapelets_per_estimator": "n_shapelets"}
OTHER = ("class_weight", "fit_intercept", "alphas_ridge", "n_jobs", "a_w", "prefer", "require", "proba_norm", "random_state",
         "input_transformers")


def inputs(which):
    from convst.transformers._input_transformers import Raw, Derivate, Periodigram
    if which == "default":
        return None, [Raw(), Derivate(), Periodigram()]
    if which == "custom":
        mk = lambda: [Centre(2.0), Derivate(order=2), Raw()]
        return mk(), mk()
    if which == "four":
        mk = lambda: [Centre(2.0), Raw(), Derivate(), Centre(-1.5)]
        return mk(), mk()
    if which == "six":
        mk = lambda: [Periodigram(), Centre(2.0), Raw(), Derivate(), Centre(-1.5), Derivate(order=2)]
        return mk(), mk()
    if which == "one":
        return [Derivate()], [Derivate()]
    mk = lambda: [Derivate(), Centre(-1.0), Centre(3.0)]
    return mk(), mk()


def real(ctx, kind, names, labels, which, big=False):
    lab = LABELS[labels]
    k = min(3, len(lab))
    names = [o for o in names if OPTIONS[o]]
    values = [ctx.pick(OPTIONS[o], o) for o in names]
    y = lab[[0, 1, k - 1, 0, 1, 0, k - 1, 0]]
    D = data(kind, [11, 10, 12, 11, 10, 12, 11, 13], y.tolist(), 2, salt=1600)
    T = data(kind, [10, 12, 11] if kind in VAR else [11] * 3, [0] * 3, 2, salt=1601)
    o = {}
    for a, v in zip(names, values):
        if v == "same":
            v = kind
        if v == "custom":
            v = {c: 1.0 + 2.5 * i for i, c in enumerate(lab.tolist())}
        if a == "lengths_bounds_reduction":
            o["shapelet_lengths_bounds"] = [3, 7]
        o[a] = v
    params = dict(dict(n_shapelets_per_estimator=3, shapelet_lengths=[3, 5], random_state=4), **o)
    if big:
        lab = np.array([3 * ((5 * i) % 9) - 4 for i in range(9)])
        y = lab[[(i * i + i // 3) % 9 for i in range(36)]]
        D = data(kind, [24 + (i * 5) % 9 for i in range(36)], y.tolist(), 2, salt=1602)
        T = data(kind, [33 - i % 9 for i in range(12)] if kind in VAR else [24] * 12, [0] * 12, 2, salt=1603)
        params.update(n_shapelets_per_estimator=25, random_state=ctx.choose(2, "seed"))
    given, ref = inputs(which)
    M = len(ref)
    if M != 3:
        params["proba_norm"] = [0.3, 1.0, 0.0, 0.6, 0.9, 0.1][:M]
    pn = params.get("proba_norm", [0.8, 0.8, 0.8])
    what = "(%s, %s, labels %s, %s inputs)" % (kind, o, lab.tolist(), which)
    TX = [t.fit(D.X, y).transform(D.X) for t in ref]
    TT = [t.transform(T.X) for t in ref]
    with Recorder() as rec:
        est = ensemble(input_transformers=given, **params)
        est.fit(D.X, y)
        if len(rec.fits) != M:
            raise Violation("%d transformers fitted for %d members %s" % (len(rec.fits), M, what))
        member = {}
        for inst, X, yy, got in rec.fits:
            m = [i for i in range(M) if i not in member.values() and same_X(X, TX[i])]
            if not m or not (yy == y).all():
                raise Violation("a member was fitted on data that is no input transformer's output on the training data %s" % what)
            member[id(inst)] = m[0]
            want = {RENAME.get(a, a): v for a, v in params.items() if a not in OTHER}
            want["proba_norm"] = pn[m[0]]
            for a, v in want.items():
                if not (got[a] is v or repr(np.asarray(got[a]).tolist()) == repr(np.asarray(v).tolist())):
                    raise Violation("option %s=%r reached member %d as %r %s" % (a, v, m[0], got[a], what))
        models = rec.models()
        if len(models) != M:
            raise Violation("%d linear models fitted for %d members %s" % (len(models), M, what))
        del rec.transforms[:]
        pred = est.predict(T.X)
        cls = np.unique(y)
        order = [member[id(f[0])] for f in rec.fits]
        Dm, W = [], []
        for pos, (inst, _, _, _) in enumerate(rec.fits):
            m = member[id(inst)]
            used = [t for t in rec.transforms if t[0] is inst]
            if len(used) < 1 or not all(same_X(t[1], TT[m]) for t in used):
                raise Violation("member %d transformed other series than its input transformer's output %s" % (m, what))
            F = np.array(used[-1][2])
            Ftr = np.array(rec.saved[1](inst, TX[m]))
            sd = Ftr.std(axis=0)
            sd[(Ftr == Ftr[0]).all(axis=0)] = 1.0
            Z = (F - Ftr.mean(axis=0)) / sd
            Ztr = (Ftr - Ftr.mean(axis=0)) / sd
            model = models[pos][1]
            if not np.allclose(models[pos][2], Ztr, rtol=1e-6, atol=1e-6) or not (models[pos][3] == y).all():
                raise Violation("the linear model of member %d was not fitted on its scaled features and the labels %s" % (m, what))
            for a, v in (("class_weight", params.get("class_weight")), ("fit_intercept", params.get("fit_intercept", True)),
                         ("alphas", params.get("alphas_ridge", list(np.logspace(-4, 4, 20))))):
                g = getattr(model, a)
                if not (g is v or repr(np.asarray(g).tolist()) == repr(np.asarray(v).tolist())):
                    raise Violation("option %s=%r reached the linear model of member %d as %r %s" % (a, v, m, g, what))
            with EnvFree():
                d = Z.dot(model.coef_.T) + model.intercept_
            Dm.append(d.ravel() if d.shape[1] == 1 else d)
            best = list(np.asarray(model.alphas)).index(model.alpha_)
            cvv = model.cv_values_[:, :, best]
            p = (cvv[:, 0] > 0).astype(int) if cvv.shape[1] == 1 else cvv.argmax(axis=1)
            W.append(float(np.mean(cls[p] == y)) ** params.get("a_w", 4))
        check_vote(pred, Dm, W, cls, what)
        again = est.predict(T.X[1:2])
        if again[0] != pred[1]:
            raise Violation("prediction of series 1 is %r alone and %r in a batch %s" % (again[0], pred[1], what))
        got, want = est.score(T.X, y[:len(pred)]), float(np.mean(pred == y[:len(pred)]))
        if abs(got - want) > 1e-12:
            raise Violation("score %s instead of %s %s" % (got, want, what))
    ctx.outcome = (kind, tuple(names), repr(values), labels, which, pred.tolist(), tuple(W), np.round(Dm[0], 6).tobytes())


def jobs(tier):
    q = tier == "quick"
    out = []
    lbs = list(LABELS)
    for lb in lbs:
        for K in (2, 3):
            if K > len(LABELS[lb]):
                continue
            out.append(("vote %s %d classes, 1 member" % (lb, K), "vote", dict(members=1, K=K, labels=lb, jobs=1, a_w=4, full=True), 2))
            for m in (2, 3) if q else (2, 3, 4):
                for a in (4, 1, 0, 0.5):
                    if m > 2 and a != 4 and q and lbs.index(lb) % 4 != {1: 0, 0: 1, 0.5: 2}[a]:
                        continue
                    if m > 3 and a not in (4, 1):
                        continue
                    js = [1, 2, 3, -1, None] if m == 2 and a == 4 else [[1, 2, 3, -1, None][(lbs.index(lb) + int(a) + K) % 5]]
                    for j in js:
                        out.append(("vote %s %d classes, %d members, a_w=%s, n_jobs=%s" % (lb, K, m, a, j), "vote",
                                    dict(members=m, K=K, labels=lb, jobs=j, a_w=a, full=False), 5 ** m / 25.))
    for K in (2, 3):
        for lb in ("gaps", "strings"):
            out.append(("order %s %d classes" % (lb, K), "vote", dict(members=2, K=K, labels=lb, jobs="order", a_w=4, full=False), 10))
    for kind in KINDS:
        for i, o in enumerate(sorted(OPTIONS)):
            for which in ("default", "custom", "third") if not q else (("default", "custom", "third")[i % 3],):
                out.append(("option %s %s %s" % (kind, o, which), "real", dict(kind=kind, names=[o], labels=lbs[i % len(lbs)], which=which), 3))
        for which in ("one", "four", "six"):
            for o in ("none", "n_jobs", "a_w") if q else [o for o in sorted(OPTIONS) if o != "proba_norm"]:
                out.append(("members %s %s %s" % (kind, o, which), "real", dict(
                    kind=kind, names=[o], labels=lbs[len(out) % len(lbs)], which=which), 5))
        out.append(("large %s" % kind, "real", dict(kind=kind, names=["none"], labels="range", which="six", big=True), 20))
        for i, lb in enumerate(LABELS):
            out.append(("labels %s %s" % (kind, lb), "real",
                        dict(kind=kind, names=["none"], labels=lb, which=("default", "custom", "third")[i % 3]), 1))
        if not q or kind == "univariate":
            for a, b in itertools.combinations([o for o in sorted(OPTIONS) if OPTIONS[o]], 2):
                if set((a, b)) == {"lengths_bounds_reduction", "shapelet_lengths_bounds"}:
                    continue
                out.append(("options %s %s %s" % (kind, a, b), "real",
                            dict(kind=kind, names=[a, b], labels=lbs[len(out) % len(lbs)], which=("default", "custom", "third")[len(out) % 3]), 3))
    return out
