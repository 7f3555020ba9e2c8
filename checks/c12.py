# -*- coding: utf-8 -*-
"""C12: each kind of input is recognised, and equivalent forms agree."""
from .fitlib import *

BOUNDS = {
    "quick": "1-3 series, 1-3 channels, 3-6 timestamps, 12 numeric dtypes, 11 containers and layouts, 5 requested types (any case); "
             "features: all series over {0,1,2}^4 (and two channels over {0,1}^3..) x all shapelet shapes x phase x normalise x 4 kinds x "
             "all forms; all channel-count sequences over {1,2,3}^2..3",
    "thorough": "series over {0,1,2}^5, two channels over {0,1,2}^4"}

DTYPES = ("float64", "float32", "float16", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", ">f8")
ARRAY = ("3D", "3D fortran", "3D view", "3D reversed view", "3D read-only")
LISTY = ("list", "object", "object 3D", "list of rows of a 3D array", "list of views", "list fortran")


def container(form, series, dtype):
    s = [np.asarray(x).astype(dtype) for x in series]
    if form == "3D":
        return np.array(s)
    if form == "3D fortran":
        return np.asfortranarray(np.array(s))
    if form == "3D view":
        a = np.array(s)
        big = np.full((a.shape[0], a.shape[1] + 1, a.shape[2] * 2), 9).astype(dtype)
        big[:, 1:, ::2] = a
        return big[:, 1:, ::2]
    if form == "3D reversed view":
        return np.ascontiguousarray(np.array(s)[:, :, ::-1])[:, :, ::-1]
    if form == "3D read-only":
        a = np.array(s)
        a.flags.writeable = False
        return a
    if form == "list":
        return s
    if form == "object":
        o = np.empty(len(s), dtype=object)
        for i, x in enumerate(s):
            o[i] = x
        return o
    if form == "object 3D":
        o = np.empty((len(s),) + s[0].shape, dtype=object)
        for i, x in enumerate(s):
            o[i] = x
        return o
    if form == "list of rows of a 3D array":
        return list(np.array(s))
    if form == "list fortran":
        return [np.asfortranarray(x) for x in s]
    return [np.repeat(x, 2, axis=1)[:, ::2] for x in s]


def applicable(form, lens):
    return len(set(lens)) == 1 or form in ("list", "object", "list of views", "list fortran")


def expected_type(form, nch):
    return ("uni" if nch == 1 else "multi") + "variate" + ("" if form in ARRAY else "_variable")


def recognise(ctx, nch, even):
    m, n = 1 + ctx.choose(3, "series"), 3 + ctx.choose(4, "timestamps")
    lens = [n] * m if even else [n + (i * (1 + i)) // 2 for i in range(m)]
    form = ctx.pick([f for f in ARRAY + LISTY if applicable(f, lens)], "form")
    dtype = ctx.pick(DTYPES, "dtype")
    req = ctx.pick(["auto"] + list(KINDS) + ["AUTO", "Univariate_Variable"], "requested")
    series = [np.abs(gen(nch, l, salt=1200 + i)) * 10 + 1 for i, l in enumerate(lens)]
    X = container(form, series, dtype)
    y = np.arange(m) % 2
    low = req.lower()
    if low in UNI and nch > 1 or low in ("univariate", "multivariate") and (not even or form in ("object", "object 3D")):
        raise Prune()
    want = expected_type(form, nch) if low == "auto" else low
    # asked for at construction, or later through set_params
    if m == 2 and n == 4 and ctx.bool("set_params"):
        est = R_DST(n_shapelets=2, shapelet_lengths=[2, 3], random_state=0).set_params(transform_type=req)
    else:
        est = R_DST(n_shapelets=2, shapelet_lengths=[2, 3], random_state=0, transform_type=req)
    what = "%s of %d series of %s timestamps with %d channels of dtype %s, transform_type=%r" % (form, m, lens, nch, dtype, req)
    est.fit(X, y)
    if str(est.transform_type).lower() != want:
        raise Violation("%s is treated as %s instead of %s" % (what, est.transform_type, want))
    if len(est.shapelets_) != (5 if want in UNI else 7):
        raise Violation("%s: fitted with the layout of %s" % (what, "univariate" if len(est.shapelets_) == 5 else "multivariate"))
    shps = unpack(est)
    out = transform(est, X, m, len(shps))
    for r in range(m):
        for k, s in enumerate(shps):
            check_triple(out[r, 3 * k:3 * k + 3], s, np.asarray(X[r]).astype(float), False, False, what)
    # in the variable length kinds a later batch may mix lengths; everywhere any container is fine for equal series
    ref = None
    for f2 in (ARRAY + ("list",) if want in VAR else ("3D", "3D fortran", "list")):
        if not applicable(f2, lens):
            continue
        o2 = transform(est, container(f2, [np.asarray(x).astype(float) for x in X], "float64"), m, len(shps))
        if not np.allclose(o2, out, rtol=1e-9, atol=1e-9):
            raise Violation("%s: transforming the same series as %s gives %s instead of %s" % (what, f2, o2.tolist(), out.tolist()))
    ctx.outcome = (want, len(shps))
    ctx.notes["forms recognised"] = 1


def features(ctx, nch, n, alphabet, phase, both=True):
    """The same shapelets and series through the four kinds and all forms."""
    series = [np.array([[ctx.pick(alphabet, "value") for _ in range(n)] for _ in range(nch)], dtype=float)]
    if both:
        series.append(np.round(np.abs(gen(nch, n, salt=1250)) * 3))
    shps = []
    for l, d in shapes(n):
        for norm in (False, True):
            C = list(range(nch)) if nch > 1 else [0]
            v = gen(nch, l, salt=1260 + l * 7 + d)
            shps.append(Shp(znorm(v) if norm else np.round(v * 2) / 2, d, 1.25, norm, C))
    kinds = KINDS if nch == 1 else [k for k in KINDS if k not in UNI]
    ref = None
    for kind in kinds:
        est = with_shapelets(kind, shps, phase, n_ft=max(2, nch))
        forms = [(f, "float64") for f in (ARRAY + LISTY if kind in VAR else ARRAY + ("list",))]
        forms += [("3D" if kind not in VAR else "list", t) for t in ("int8", "float16", "uint8", "int64")]
        # all forms for the first few inputs, one form per further input in rotation (the form never depends on the values)
        forms = forms if max(ctx.path) == 0 or sum(ctx.path) == 1 else forms[sum(ctx.path) % len(forms):][:1]
        for form, dtype in forms:
            out = transform(est, container(form, series, dtype), len(series), len(shps))
            if ref is None:
                ref, name = out, (kind, form, dtype)
                for r, x in enumerate(series):
                    for k, s in enumerate(shps):
                        check_triple(out[r, 3 * k:3 * k + 3], s, x, phase, False, kind)
            elif not np.allclose(out, ref, rtol=1e-9, atol=1e-9):
                bad = np.argwhere(~np.isclose(out, ref, rtol=1e-9, atol=1e-9))[0]
                raise Violation("series %s: %s gives %r and %s gives %r for feature %d of %r" % (
                    series[bad[0]].tolist(), name, ref[tuple(bad)], (kind, form, dtype), out[tuple(bad)], bad[1] % 3,
                    shps[bad[1] // 3]))
            ctx.notes["feature matrices compared"] = ctx.notes.get("feature matrices compared", 0) + 1
    ctx.outcome = ref.tobytes()


def fit_forms(ctx, kind):
    """Forms and dtypes of one data set lead to the same fitted shapelets."""
    nch = 1 if kind in UNI else 2 + ctx.choose(2, "channels")
    n = 5 + ctx.choose(2, "n")
    seed = ctx.choose(3, "seed")
    uneven = kind in VAR and ctx.bool("uneven")
    lens = [n, n + 1, n + 2, n] if uneven else [n] * 4
    series = [np.round(np.abs(gen(nch, l, salt=1270 + i)) * 20) for i, l in enumerate(lens)]
    y = np.array([0, 1, 0, 1])
    opts = ctx.pick([dict(shapelet_lengths=[3]), dict(shapelet_lengths=[0.5], n_samples=0.5),
                     dict(shapelet_lengths_bounds=[3, 5], phase_invariance=True)], "options")
    yform = ctx.pick(["array", "strings", "floats"], "labels")
    yy = dict(array=y, strings=np.array(["a", "b"])[y], floats=y * 1.5 - 0.5)[yform]
    ref = None
    forms = [f for f in (LISTY + ARRAY if kind in VAR else ARRAY + ("list",)) if applicable(f, lens)]
    for form in forms:
        for dtype in (DTYPES if form in ("3D", "list") else ("float64",)):
            est = R_DST(transform_type=kind, n_shapelets=4, random_state=seed, **opts).fit(container(form, series, dtype), yy)
            got = freeze(est.shapelets_)
            if ref is None:
                ref, name = got, (form, dtype)
            elif not (len(ref) == len(got) and all(p.shape == q.shape and np.allclose(p, q, rtol=1e-9, atol=1e-9)
                                                   for p, q in zip(ref, got))):
                raise Violation("%s: fitting the same series as %s and as %s gives different shapelets" % (kind, name, (form, dtype)))
            ctx.notes["fits compared"] = ctx.notes.get("fits compared", 0) + 1
    ctx.outcome = digest(ref)


def reject(ctx, m):
    """Differing channel counts are an error in fit and in transform, wherever the odd series is."""
    counts = [1 + ctx.choose(3, "channels") for _ in range(m)]
    n = 5
    uneven = ctx.bool("uneven")
    series = [gen(c, n + (i if uneven else 0), salt=1290 + i) for i, c in enumerate(counts)]
    form = ctx.pick(["list", "object"], "form")
    req = ctx.pick(["auto", "univariate_variable", "multivariate_variable"], "requested")
    op = ctx.pick(["fit", "transform"], "operation")
    X = container(form, series, "float64")
    same = len(set(counts)) == 1
    if same and req == "univariate_variable" and counts[0] > 1:
        raise Prune()
    est = R_DST(n_shapelets=2, shapelet_lengths=[3], random_state=0, transform_type=req)
    if op == "fit":
        call = lambda: est.fit(X, np.arange(m) % 2)
    else:
        c0 = 1 if req == "univariate_variable" else max(counts)
        if same:
            c0 = counts[0]
        est.fit([gen(c0, 6, salt=1298), gen(c0, 7, salt=1299)], np.array([0, 0]))
        call = lambda: est.transform(X)
    try:
        call()
    except Exception as e:
        from mc.engine import _env_failure
        if _env_failure(e, e.__traceback__) or same:
            raise
        ctx.outcome = ("rejected", op)
        return
    if not same:
        raise Violation("%s accepts series with %s channels (%s, transform_type=%r)" % (op, counts, form, req))
    ctx.outcome = ("accepted", op)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for nch in (1, 2, 3):
        for even in (True, False):
            out.append(("recognise %d channels %s" % (nch, "equal" if even else "different"), "recognise",
                        dict(nch=nch, even=even), 500))
    for phase in (False, True):
        out.append(("features one channel phase=%d" % phase, "features", dict(
            nch=1, n=5 if t else 4, alphabet=(0, 1, 2), phase=phase), 300))
        out.append(("features two channels phase=%d" % phase, "features", dict(
            nch=2, n=4 if t else 3, alphabet=(0, 1, 2) if t else (0, 1, 3), phase=phase), 300))
    for kind in KINDS:
        out.append(("fit %s" % kind, "fit_forms", dict(kind=kind), 200))
    for m in (2, 3):
        out.append(("reject %d" % m, "reject", dict(m=m), 20))
    return out
