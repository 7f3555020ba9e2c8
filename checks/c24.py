# -*- coding: utf-8 -*-
"""C24: the shapelet search space is covered."""
from .fitlib import *

BOUNDS = {
    "quick": "reached set compared with the admissible set over all draws of a fit of 1 shapelet (and of 2, alpha=1 excluded) on "
             "2-3 series of 4-9 timestamps (1-3 channels), 4 kinds x phase x prime x normalisation 0, 0.5, 1; reached "
             "dilations for every n in 4..70 (lengths 2, 3, 4, 6); reached lengths for 8 specifications; all joint (length, dilation) outcomes of 2 "
             "shapelets; data with isolated zeros",
    "thorough": "3-4 series of 6-12 timestamps, n in 4..200"}
FINE = tuple((i + 0.5) / 32 for i in range(32)) + (0.0, ALMOST1)


def admissible(D, lengths, phase, prime, norms, max_channels, n=None):
    n = D.n if n is None else n
    req, opt = set(), set()
    chans = [frozenset(c) for r in range(1, max_channels + 1) for c in itertools.combinations(range(D.nch), r)]
    for l in lengths:
        M = (n - 1) // (l - 1)
        for d in range(1, M + 1):
            if prime and not is_prime(d):
                continue
            for i, ni in enumerate(D.lens):
                for s in (range(ni) if phase else range(ni - (l - 1) * d)):
                    for norm in norms:
                        for c in chans:
                            (req if prime or d < M or M == 1 else opt).add((i, s, l, d, norm, c))
    return req, opt


def reach(ctx, acc, kind, lens, nch, phase, prime, pn, lengths, max_channels=None, k=1, min_len=None, **form):
    D = data(kind, lens, [0] * (len(lens) - 1) + [1], nch, salt=240, **form)
    est = fit_draws(ctx, D, FitRNG(ctx, unit=FINE[::2] + FINE[-2:] if prime else (0.0, ALMOST1), thr=(0.5,),
                                   dil="dense" if k == 1 else (0.0, ALMOST1)),
                    n_shapelets=k, shapelet_lengths=lengths, phase_invariance=phase, prime_dilations=prime, proba_norm=pn,
                    max_channels=max_channels, min_len=min_len)
    shps = unpack(est)
    for s in shps:
        for (i, t) in D.sources(s, phase):
            acc.setdefault("reached", set()).add((i, t, s.l, s.d, s.norm, frozenset(s.channels)))
        if not D.sources(s, phase):
            raise Violation("shapelet %r is no dilated window of a training series %s" % (s, [x.tolist() for x in D.series]))
    ctx.outcome = repr(shps)


def reach_finish(acc, st, kind, lens, nch, phase, prime, pn, lengths, max_channels=None, k=1, min_len=None, **form):
    if st.capped:
        return
    D = data(kind, lens, [0] * (len(lens) - 1) + [1], nch, salt=240, **form)
    norms = [False] if pn == 0 else [True] if pn == 1 else [False, True]
    n = D.n if min_len is None else min(D.n, min_len)
    req, opt = admissible(D, admissible_lengths(n, shapelet_lengths=lengths), phase, prime, norms, min(max_channels or D.nch, D.nch), n)
    got = acc.get("reached", set())
    miss, extra = sorted(req - got, key=repr), sorted(got - req - opt, key=repr)
    st.counts["candidates admissible"] = len(req) + len(opt)
    st.counts["candidates reached"] = len(got)
    if miss:
        raise Violation("%d of %d admissible candidates (series, start, length, dilation, normalised, channels) are reached by no "
                        "draw, for instance %s (series lengths %s, prime %s, phase %s)" % (
                            len(miss), len(req), miss[:4], D.lens, prime, phase))
    if extra:
        raise Violation("inadmissible candidates reached: %s (series lengths %s, prime %s, phase %s)" % (
            extra[:4], D.lens, prime, phase))


def spec_fit(ctx, D, phase, spec, k=1, dil="dense"):
    kw = dict(shapelet_lengths=spec["shapelet_lengths"]) if "bounds" not in spec else dict(
        shapelet_lengths_bounds=spec["bounds"], lengths_bounds_reduction=spec["reduction"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return unpack(fit_draws(ctx, D, FitRNG(ctx, unit=(0.5,), thr=(0.5,), dil=dil), n_shapelets=k, phase_invariance=phase,
                                proba_norm=0.0, alpha=0.0, **kw))


def lengths_(ctx, acc, kind, n, phase, spec):
    """Every candidate length can come out, whatever the other lengths of the specification."""
    D = data(kind, [n, n + 1], [0, 1], 1, salt=241)
    for s in spec_fit(ctx, D, phase, spec, dil=(0.0,)):
        acc.setdefault("reached", set()).add(s.l)
        ctx.outcome = s.l


def lengths__finish(acc, st, kind, n, phase, spec):
    want, got = set(admissible_lengths(n, **spec)), acc.get("reached", set())
    if got != want:
        raise Violation("lengths %s are reached although the candidate lengths of %s are %s (n=%d)" % (
            sorted(got), spec, sorted(want), n))


def joint(ctx, acc, kind, n, phase, lengths):
    """The draws of a shapelet do not restrict those of another."""
    D = data(kind, [n, n], [0, 0], 1, salt=242)
    got = spec_fit(ctx, D, phase, dict(shapelet_lengths=lengths), k=2)
    if len(got) == 2:
        acc.setdefault("reached", set()).add(tuple(sorted((s.l, s.d) for s in got)))
    ctx.outcome = repr([(s.l, s.d) for s in got])


def joint_finish(acc, st, kind, n, phase, lengths):
    one = [(l, d) for l in lengths for d in range(1, max(2, (n - 1) // (l - 1)))]
    miss = set(tuple(sorted(p)) for p in itertools.product(one, one)) - acc.get("reached", set())
    if miss and not st.capped:
        raise Violation("no draw of two shapelets gives the (length, dilation) pairs %s, n=%d" % (sorted(miss)[:4], n))


def dilations(ctx, acc, kind, n, length, prime):
    D = data(kind, [n + 2, n], [0, 1], 2, salt=n)
    est = fit_draws(ctx, D, ShapeRNG(ctx, unit=FINE if prime else (0.0,), thr=(0.5,)),
                    n_shapelets=1, shapelet_lengths=[length], prime_dilations=prime, proba_norm=0.0)
    for s in unpack(est):
        acc.setdefault("reached", set()).add(s.d)
        ctx.outcome = (s.l, s.d)


def dilations_finish(acc, st, kind, n, length, prime):
    n = n if kind in VAR else n + 2
    M = (n - 1) // (length - 1)
    ok = set(d for d in range(1, M + 1) if not prime or is_prime(d))
    got = acc.get("reached", set())
    req = set(d for d in ok if prime or d < M or M == 1)
    if M > 64 and not prime:
        req = set()
    if prime and len(req) > 12:
        req = set(sorted(req)[:3] + [max(req)])
    st.counts["dilations reached"] = len(got)
    if not got <= ok:
        raise Violation("dilations %s reached with length %d in %d timestamps (prime %s)" % (sorted(got - ok), length, n, prime))
    if not req <= got:
        raise Violation("dilations %s never reached with length %d in %d timestamps (prime %s)" % (
            sorted(req - got), length, n, prime))


class LargeRNG(FitRNG):
    """Explores every value of one kind of draw, the ends of the others: 'flat' (sample and start among all), 'start'"""
    seen = 0

    def __init__(self, ctx, what, others, **k):
        FitRNG.__init__(self, ctx, **k)
        self.what, self.others = what, others

    def _index(self, n, label):
        if n <= 1 or n > self.big:
            return FitRNG._index(self, n, label)
        self.seen += 1
        if n == self.others:
            return 0                     # the series the threshold comes from
        if self.what == "start" and self.seen == 1:
            return self.ctx.pick([0, n - 1], label)
        if self.what == "dilation" or self.what == "first" and self.seen > 1:
            return 0
        return FitRNG._index(self, n, label)


def large(ctx, acc, what, kind, lens, nch, phase, max_channels, length, dil, menu=None):
    D = data(kind, lens, [i % 2 for i in range(len(lens))], nch, salt=243)
    dil_ = (0.0,) if dil == 1 else tuple(menu)
    est = fit_draws(ctx, D, LargeRNG(ctx, what, (len(lens) + 1) // 2 - 1, unit=(0.5,), thr=(0.5,), dil=dil_), n_shapelets=1, shapelet_lengths=[length],
                    phase_invariance=phase, proba_norm=0.0, max_channels=max_channels)
    for s in unpack(est):
        src = D.sources(s, phase)
        if not src:
            raise Violation("shapelet %r is no dilated window of a training series" % (s,))
        for i, t in src:
            acc.setdefault("reached", set()).add((i, t))
        acc.setdefault("channels", set()).add(tuple(s.channels))
        acc.setdefault("dilations", set()).add(s.d)
        ctx.outcome = (src[0], s.d, tuple(s.channels))


def large_finish(acc, st, what, kind, lens, nch, phase, max_channels, length, dil, menu=None):
    if st.capped:
        return
    if what in ("flat", "start"):
        n = min(lens)
        want = set((i, t) for i, ni in enumerate(lens) for t in (range(ni) if phase else range(ni - length + 1)))
        miss = want - acc.get("reached", set())
        if miss:
            raise Violation("%d of %d subsequences of length %d (series, start) are reached by no draw, for instance %s (%s, lengths %s)" % (
                len(miss), len(want), length, sorted(miss)[:4], kind, sorted(set(lens))))
    got = acc.get("channels", set())
    if what == "flat" and nch > 1 and kind not in UNI and set((c,) for c in range(nch)) - got:
        raise Violation("channels %s of %d are reached by no draw" % (sorted(set((c,) for c in range(nch)) - got)[:5], nch))
    if what == "first" and nch > 1 and kind not in UNI:
        sizes = set(len(c) for c in got)
        if sizes != set(range(1, nch + 1)):
            raise Violation("numbers of channels reached: %s, of %d channels" % (sorted(sizes), nch))
    if dil != 1:
        M = (min(lens) - 1) // (length - 1)
        want = set(int(np.floor(2.0 ** (u * np.log2(M)) + 1e-9)) for u in menu)
        if acc.get("dilations", set()) != want:
            raise Violation("dilations %s are reached instead of %s for length %d in %d timestamps" % (
                sorted(acc.get("dilations", set())), sorted(want), length, min(lens)))


def at_dilations(M):
    want = sorted(set(d for d in [1, 2, 3, 5, 7, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, M // 3, M // 2, M - 1]
                      if 1 <= d < M))
    return tuple(np.log2(d + 0.5) / np.log2(M) for d in want)


def jobs(tier):
    t = tier == "thorough"
    out = []
    for kind in KINDS:
        uni, var = kind in UNI, kind in VAR
        for phase in (False, True):
            for prime in (False, True):
                for pn in (0.0, 0.5, 1.0):
                    tag = "%s%s%s norm=%s" % (kind, " phase" if phase else "", " prime" if prime else "", pn)
                    if uni:
                        lens = ([9, 7, 8] if var else [8] * 3) if not t else ([12, 9, 10] if var else [11] * 4)
                        out.append(("one %s" % tag, "reach", dict(
                            kind=kind, lens=lens, nch=1, phase=phase, prime=prime, pn=pn,
                            lengths=([2] if pn == 0 else []) + [3, 4, 6]), 300))
                    else:
                        lens = ([7, 6] if var else [6] * 2) if not t else ([8, 7, 9] if var else [8] * 3)
                        out.append(("one %s" % tag, "reach", dict(
                            kind=kind, lens=lens, nch=2, phase=phase, prime=prime, pn=pn,
                            lengths=([2] if pn == 0 else []) + [3, 4]), 500))
                        if not prime:
                            out.append(("three channels %s" % tag, "reach", dict(
                                kind=kind, lens=[5] * 2, nch=3, phase=phase, prime=prime, pn=pn,
                                lengths=[3], max_channels=None if pn else 2), 500))
            if var:
                out.append(("min_len %s%s" % (kind, " phase" if phase else ""), "reach", dict(
                    kind=kind, lens=[8, 7], nch=1, phase=phase, prime=False, pn=0.0, lengths=[3], min_len=5), 50))
            out.append(("two %s%s" % (kind, " phase" if phase else ""), "reach", dict(
                kind=kind, lens=[5, 5], nch=2, phase=phase, prime=False, pn=0.0, lengths=[3], k=2,
                max_channels=1), 500))
            out.append(("zeros %s%s" % (kind, " phase" if phase else ""), "reach", dict(
                kind=kind, lens=[6, 5] if var else [6, 6], nch=1, phase=phase, prime=False, pn=0.0, lengths=[2, 3], zeros=True), 50))
            out.append(("too long %s%s" % (kind, " phase" if phase else ""), "reach", dict(
                kind=kind, lens=[8, 9] if var else [9, 9], nch=1, phase=phase, prime=False, pn=0.0, lengths=[3, 50]), 50))
            one = dict(kind=kind, nch=1, phase=phase, max_channels=None, dil=1)
            many = [5] * 150 if kind not in VAR else [5 + i % 2 for i in range(150)]
            out.append(("many series %s%s" % (kind, " phase" if phase else ""), "large", dict(one, what="flat", lens=many, length=4), 700))
            for n, length in ((300, 3), (150, 140)) + (((1100, 11),) if t else ()):
                out.append(("long series %s%s %d" % (kind, " phase" if phase else "", n), "large", dict(
                    one, what="start", lens=[n, n] if kind not in VAR else [n + 1, n], length=length), 800))
            for n, length in ((420, 3), (1030, 4), (560, 2)):
                out.append(("large dilations %s%s %d" % (kind, " phase" if phase else "", n), "large", dict(
                    one, what="dilation", lens=[n], length=length, dil="menu", menu=at_dilations((n - 1) // (length - 1))), 100))
            if not uni:
                out.append(("many channels %s%s" % (kind, " phase" if phase else ""), "large", dict(
                    one, what="flat", lens=[4, 4], nch=40, max_channels=1, length=3), 500))
                out.append(("wide shapelets %s%s" % (kind, " phase" if phase else ""), "large", dict(
                    one, what="first", lens=[4, 4], nch=40, length=3), 500))
            out.append(("joint %s%s" % (kind, " phase" if phase else ""), "joint", dict(
                kind=kind, n=8 if t else 7, phase=phase, lengths=[2, 3, 5]), 500))
            for q, spec in enumerate((
                    dict(shapelet_lengths=[3, 40]), dict(shapelet_lengths=[2, 9, 4, 7]), dict(shapelet_lengths=[0.25, 0.5, 0.99]),
                    dict(shapelet_lengths=[0.3, 1.0, 1.5]), dict(bounds=[3, 11], reduction=0.5), dict(bounds=[0.2, 0.9], reduction=0.0),
                    dict(bounds=[4, 12], reduction=0.25), dict(bounds=[0.1, 1.0], reduction=0.75))):
                out.append(("lengths %s%s %d" % (kind, " phase" if phase else "", q), "lengths_", dict(
                    kind=kind, n=12, phase=phase, spec=spec), 5))
        for prime in (False, True):
            top = 200 if t else 70
            for n in list(range(4, 26)) + list(range(26, top, 3 if not t else 1)):
                for length in (2, 3, 4, 6):
                    if length <= n and (n + length) % (2 if n > 12 and not t else 1) == 0:
                        out.append(("dilations %s%s n=%d l=%d" % (kind, " prime" if prime else "", n, length), "dilations", dict(
                            kind=kind, n=n, length=length, prime=prime), 1))
    return out
