# -*- coding: utf-8 -*-
"""C18: feature scalers drop exactly the constant training features, consistently."""
from .fitlib import *

BOUNDS = {
    "quick": "all fit matrices over {0, 1, 5} up to 3x3 and over awkward reals (0.1, 1/3, 1e8+0.1, -0.0, 1e-300, denormal steps) up to 4x2, "
             "with all 1-2 row test matrices over {0, 1, 2}; columns differing in one row, any of up to 17, 19 of 300; one varying column of 260; all histories of 2 fits (3 operations) over a pool of 14 matrices of "
             "different widths; all options of both scalers",
    "thorough": "fit matrices over {0,1,5} up to 4x3, 3 fits"}


def make(name, opt):
    from convst.transformers import _input_transformers as it
    if name == "standard":
        return it.c_StandardScaler(**[{}, dict(with_mean=True), dict(with_mean=False), dict(with_std=False)][opt])
    return it.c_MinMaxScaler(**[{}, dict(feature_range=(-1, 1)), dict(clip=True), {}][opt])


def varying(F):
    return [j for j in range(F.shape[1]) if any(F[i, j] != F[0, j] for i in range(F.shape[0]))]


def reference(name, opt, F, G):
    """Definition: the varying columns of F, scaled with F's statistics, applied to G."""
    keep = varying(F)
    A, B = F[:, keep], G[:, keep]
    if name == "standard":
        mu, sd = A.mean(axis=0), A.std(axis=0)
        out = B.astype(float)
        if opt != 2:
            out = out - mu
        if opt != 3:
            # scikit-learn leaves columns whose deviation is rounding noise unscaled
            eps = np.finfo(float).eps
            noise = sd ** 2 <= len(A) * eps * sd ** 2 + (len(A) * mu * eps) ** 2
            out = out / np.where(noise | (sd == 0), 1.0, sd)
        return out
    lo, hi = A.min(axis=0), A.max(axis=0)
    r = hi - lo
    r = np.where(r < 10 * np.finfo(float).eps, 1.0, r)
    a, b = (-1, 1) if opt == 1 else (0, 1)
    out = (B - lo) / r * (b - a) + a
    return np.clip(out, a, b) if opt == 2 else out


def same(got, want, scale=1.0):
    got = np.asarray(got)
    return got.shape == want.shape and np.allclose(got, want, rtol=1e-7, atol=1e-7 * scale)


def one(ctx, name, rows, cols, alphabet, gmenu, fast):
    F = np.array([[ctx.pick(alphabet, "train") for _ in range(cols)] for _ in range(rows)], dtype=float)
    if not varying(F):
        if ctx.bool("all constant"):
            raise Prune()
        return nothing(name, F)
    opt = ctx.choose(4 if not fast else 2, "options")
    G = np.array([[ctx.pick(gmenu, "test") for _ in range(cols)] for _ in range(1 + (rows == 2 and cols < 3))], dtype=float)
    est = make(name, opt)
    keepF, keepG = F.copy(), G.copy()
    r = est.fit(F)
    if r is not est:
        raise Violation("fit does not return the scaler")
    scale = np.abs(F).max() + np.abs(G).max() + 1
    out = est.transform(G)
    want = reference(name, opt, F, G)
    if not same(out, want, scale):
        raise Violation("%s (option %d) fitted on %s maps %s to %s instead of %s (columns %s)" % (
            name, opt, F.tolist(), G.tolist(), np.asarray(out).tolist(), want.tolist(), varying(F)))
    for i in range(len(G)):
        if not same(est.transform(G[i:i + 1]), want[i:i + 1], scale):
            raise Violation("%s: row %s is transformed differently alone" % (name, G[i].tolist()))
    if not same(est.transform(F), reference(name, opt, F, F), scale) or not same(
            make(name, opt).fit_transform(F), reference(name, opt, F, F), scale):
        raise Violation("%s: transform of its training matrix %s is wrong" % (name, F.tolist()))
    if (F != keepF).any() or (G != keepG).any():
        raise Violation("%s modified its input" % name)
    ctx.outcome = (tuple(varying(F)), np.round(want, 9).tobytes())


def nothing(name, F):
    """No column varies: fit may refuse (no feature is left); if it does not, transform keeps no column."""
    est = make(name, 0)
    try:
        est.fit(F)
        out = est.transform(F)
    except ValueError:
        return
    if np.asarray(out).shape[1]:
        raise Violation("%s keeps columns of the constant matrix %s" % (name, F.tolist()))


SOME = [0, 1, 2, 15, 16, 31, 63, 64, 65, 127, 128, 150, 199, 254, 255, 256, 257, 298, 299]


def sparse(ctx, name, rows):
    """A column that differs in a single row (any row, large or tiny) is kept; constant neighbours are dropped."""
    base = ctx.pick([0.0, 1.0, 0.1, -2.5, 1e6], "base")
    step = ctx.pick([1.0, -1.0, 1e-3, 50.0], "step")
    where, order = ctx.choose(rows, "row") if rows < 100 else ctx.pick(SOME, "row"), ctx.choose(3, "column")
    F = np.stack([np.full(rows, 7.0), np.full(rows, base), np.arange(rows) * 1.0], axis=1)
    F[where, 1] += step
    F = np.roll(F, order, axis=1)
    G = np.stack([np.array([7.0, 8.0]), np.array([base, base + 2 * step]), np.array([-1.0, 3.5])], axis=1)
    G = np.roll(G, order, axis=1)
    est = make(name, 0).fit(F)
    want = reference(name, 0, F, G)
    out = est.transform(G)
    if not same(out, want, np.abs(F).max() + np.abs(G).max() + 1):
        raise Violation("%s fitted on %s maps %s to %s instead of %s" % (
            name, F.tolist(), G.tolist(), np.asarray(out).tolist(), want.tolist()))
    ctx.outcome = np.round(want, 9).tobytes()


def wide(ctx, name):
    """Many columns, all constant but one (or all varying but one)"""
    cols, inv = 260, ctx.bool("all but one")
    p = ctx.pick([c for c in range(cols) if c < 3 or c % 13 == 0 or c > cols - 3 or c in (63, 64, 127, 128, 255, 256)], "column")
    v = (np.arange(cols) != p) == inv
    F = np.where(v, np.array([[1.0], [2.0], [4.0]]), np.arange(cols) - 7.0)
    G = np.arange(2 * cols).reshape(2, cols) / 3.0
    out, want = make(name, 0).fit(F).transform(G), reference(name, 0, F, G)
    if not same(out, want, 1e3):
        raise Violation("%s fitted on %d columns of which %s %d varies: output of shape %s differs from the definition" % (
            name, cols, "all but" if inv else "only", p, np.shape(out)))
    ctx.outcome = (p, inv)


POOL = [[[0, 1], [0, 2]], [[1, 0], [2, 0]], [[1, 5], [2, 5], [3, 5]], [[1, 2, 3], [1, 0, 3]], [[7, 7, 1], [7, 8, 1], [7, 9, 1]],
        [[0, 1, 2], [3, 4, 5]], [[4], [5]], [[1, 1, 1, 2], [1, 1, 1, 3]], [[0.1, 1], [0.1, 2], [0.1, 3]], [[2, 2, 2, 2], [3, 2, 3, 2]],
        [[-1, 0, 1], [1, 0, -1]], [[1, 0], [1, 3]], [[5, 1, 5], [5, 1, 6]], [[0, 0, 0, 1], [0, 1, 0, 0]]]


def histories(ctx, name, fits):
    opt = ctx.choose(2, "options")
    est = make(name, opt)
    seq = []
    F = None
    for _ in range(fits):
        F = np.array(POOL[ctx.choose(len(POOL), "fit")], dtype=float)
        seq.append(F.tolist())
        how = ctx.choose(3, "between")
        est.fit(F)
        if how:
            for G in (F, F * 0 + 3) if how == 1 else (F[:1],):
                est.transform(G)
    for G in (F, F * 0, -2.5 * F + 1, np.arange(F.size).reshape(F.shape) * 1.0):
        want = reference(name, opt, F, G)
        out = est.transform(G)
        if not same(out, want, 1e3):
            raise Violation("%s fitted on %s in turn maps %s to %s instead of %s" % (
                name, seq, G.tolist(), np.asarray(out).tolist(), want.tolist()))
    # the number of columns is the training one: anything narrower that lacks a kept column is refused
    ctx.outcome = (tuple(varying(F)), F.shape)


def in_ridge(ctx, kind):
    """Through the classifier: features constant on the training set have no influence, whatever the test rows."""
    from convst.classifiers import R_DST_Ridge
    seed = ctx.choose(4, "seed")
    n = 5
    X = as_kind(kind, [gen(1 if kind in UNI else 2, n + (i % 2 if kind in VAR else 0), salt=1800 + i) for i in range(4)])
    y = np.array([0, 1, 0, 1])
    clf = R_DST_Ridge(n_shapelets=6, shapelet_lengths=[3], random_state=seed, proba_norm=0.0, percentiles=[0, 0],
                      phase_invariance=ctx.bool("phase")).fit(X, y)
    T = clf.transformer.transform(X)
    Y = as_kind(kind, [gen(1 if kind in UNI else 2, n + (i % 2 if kind in VAR else 0), salt=1850 + i) for i in range(3)])
    U = clf.transformer.transform(Y)
    try:
        scaler = clf.classifier[:-1]
    except TypeError:               # not a pipeline: C15 compares the predictions
        raise Prune()
    got = scaler.transform(U)
    want = reference("standard", 1, T, U)
    if not same(got, want, 1e3):
        raise Violation("%s: scaled features of new series %s instead of %s" % (kind, np.asarray(got).tolist(), want.tolist()))
    ctx.outcome = (kind, len(varying(T)), T.shape[1])


AWK = (0.1, 1 / 3., 1e8 + 0.1)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for name in ("standard", "minmax"):
        for rows, cols in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (2, 3)) + (((4, 2), (4, 1)) if t else ((4, 1),)):
            out.append(("%s %dx%d" % (name, rows, cols), "one", dict(
                name=name, rows=rows, cols=cols, alphabet=(0, 1, 5), gmenu=(0, 1, 2),
                fast=rows * cols > 5), 3 ** (rows * cols)))
        out.append(("%s 3x3" % name, "one", dict(name=name, rows=3, cols=3, alphabet=(0, 1, 5) if t else (0, 5), gmenu=(0, 2), fast=True), 4000))
        for rows, cols in ((3, 1), (4, 1), (5, 1), (6, 1), (2, 2), (3, 2)):
            out.append(("%s awkward %dx%d" % (name, rows, cols), "one", dict(
                name=name, rows=rows, cols=cols, alphabet=AWK, gmenu=(0.1, 7), fast=False), 500))
        out.append(("%s tiny" % name, "one", dict(name=name, rows=3, cols=1, alphabet=(0.0, -0.0, 1e-300, 1.0, 1.0 + 2.0 ** -52, 1e-9),
                                                  gmenu=(0, 1), fast=False), 100))
        out.append(("%s wide" % name, "wide", dict(name=name), 40))
        for rows in (2, 5, 9, 17, 300) if not t else (2, 3, 4, 5, 7, 9, 12, 17, 33, 70, 300):
            out.append(("%s sparse %d" % (name, rows), "sparse", dict(name=name, rows=rows), 60 * rows))
        out.append(("%s histories" % name, "histories", dict(name=name, fits=3 if t else 2), 3000))
    for kind in KINDS:
        out.append(("ridge %s" % kind, "in_ridge", dict(kind=kind), 10))
    return out
