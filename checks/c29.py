# -*- coding: utf-8 -*-
"""C29: the numba options are honoured and change no result."""
import importlib
import pkgutil
import sys

from .fitlib import *

BOUNDS = {
    "quick": "all 16 values of the options (cache, fastmath, nogil, parallel) x 4 kinds of data x phase invariance, 3 seeds: shapelets, "
             "features, ridge and ensemble predictions, normalisers, helpers, distance vectors; every compiled function of the package",
    "thorough": "the same with 12 seeds and 2 sizes"}

OTHERS = ("experiments_utils", "plot_utils")          # need pandas, compile nothing
NAMES = ("CACHE", "FASTMATH", "NOGIL", "PARALLEL")
_current = [None]


def load_with(opts):
    """Imports the package anew after setting its options, as examples/Changing_numba_options.py does."""
    if _current[0] == opts:
        return
    for m in [m for m in sys.modules if m == "convst" or m.startswith("convst.")]:
        del sys.modules[m]
    import numba
    del numba.COMPILED[:]
    rt.JIT_CODE.clear()
    convst = importlib.import_module("convst")
    for n, v in zip(NAMES, opts):
        if not isinstance(getattr(convst, "__USE_NUMBA_%s__" % n, None), bool):
            raise Violation("option __USE_NUMBA_%s__ does not exist" % n)
        setattr(convst, "__USE_NUMBA_%s__" % n, v)
    for m in ("transformers", "classifiers", "interpreters", "utils"):
        p = importlib.import_module("convst." + m)
        for _, name, _ in pkgutil.iter_modules(p.__path__):
            if name not in OTHERS:
                importlib.import_module("convst.%s.%s" % (m, name))
    _current[0] = opts


def battery(kind, phase, seed, big):
    from convst.classifiers import R_DST_Ridge, R_DST_Ensemble
    from convst.transformers import _commons as c, _input_transformers as it
    from convst.utils import dataset_utils as du, numba_utils as nu
    n = 14 if big else 9
    D = data(kind, [n, n + 2, n + 1, n] * (2 if big else 1), [0, 1, 0, 1] * (2 if big else 1), 3, salt=2900)
    T = data(kind, [n + 3, n + 2, n + 4, n + 2], [0] * 4, 3, salt=2901)
    o = dict(shapelet_lengths=[3, 5], phase_invariance=phase, random_state=seed)
    out = {}
    t = R_DST(n_shapelets=12, transform_type=kind, prime_dilations=bool(seed % 2), **o).fit(D.X, D.y)
    out["shapelets"] = digest(freeze(t.shapelets_))
    out["features of the training data"] = digest(np.array(t.transform(D.X)))
    out["features of other data"] = digest(np.array(t.transform(T.X)))
    r = R_DST_Ridge(n_shapelets=10, **o).fit(D.X, D.y)
    out["ridge predictions"] = digest(np.asarray(r.predict(T.X)))
    e = R_DST_Ensemble(n_shapelets_per_estimator=5, n_jobs=2, **o).fit(D.X, D.y)
    out["ensemble weights"] = digest(np.array(e.model_weights, dtype=float))
    out["ensemble predictions"] = digest(np.asarray(e.predict(T.X)))
    same = np.array([gen(2, 7, salt=2910 + i) for i in range(3)])
    out["Z_normalizer"] = digest(np.array(it.Z_normalizer().fit_transform(same)))
    out["z_norm_3D"] = digest(np.array(du.z_norm_3D(same.copy())))
    x = np.round(gen(4, 3, salt=2920) * 2) % 3
    out["nb_unique"] = digest([np.array(a) for a in nu.nb_unique(x)])
    out["primes"] = digest(np.array(c.prime_up_to(31)))
    return out


_ref = {}


def options(ctx, opts, kind, phase, seeds, big=False):
    seed = ctx.choose(seeds, "seed")
    key = (kind, phase, seed, big)
    if key not in _ref:
        load_with((True,) * 4)
        for s in range(seeds):
            _ref[(kind, phase, s, big)] = battery(kind, phase, s, big)
    load_with(opts)
    got = battery(kind, phase, seed, big)
    for k in got:
        if got[k] != _ref[key][k]:
            raise Violation("%s differ with the numba options %s (%s, phase=%s, random_state=%d)" % (
                k, dict(zip(NAMES, opts)), kind, phase, seed))
    ctx.outcome = (opts, kind, phase, seed, digest(repr(sorted(got.items()))))


def honoured(ctx, opts):
    """An option that is switched off is off for every compiled function; one that is on is used somewhere."""
    load_with(opts)
    import numba
    fs = [(m, f, o) for m, f, o in numba.COMPILED if m.startswith("convst")]
    for n, v in zip(NAMES, opts):
        using = [f for _, f, o in fs if o.get(n.lower())]
        if not v and using:
            raise Violation("__USE_NUMBA_%s__ is off but %s are compiled with it" % (n, using))
        if v and not using:
            raise Violation("__USE_NUMBA_%s__ is on but no function is compiled with it" % n)
    ctx.outcome = (opts, len(fs))


def jobs(tier):
    import itertools
    t = tier == "thorough"
    out = []
    for opts in itertools.product((True, False), repeat=4):
        tag = "".join("01"[v] for v in opts)
        out.append(("honoured %s" % tag, "honoured", dict(opts=opts), 1))
        for kind in KINDS:
            for phase in (False, True):
                for big in (False, True) if t else (False,):
                    out.append(("options %s %s phase=%d%s" % (tag, kind, phase, " big" if big else ""), "options",
                                dict(opts=opts, kind=kind, phase=phase, seeds=12 if t else 3, big=big), 20))
    return out
