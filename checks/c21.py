# -*- coding: utf-8 -*-
"""C21: loaded datasets are consistent.  The archive is an environment whose answers are enumerated."""
from .common import *
from .common import gen

BOUNDS = {
    "quick": "all labelings of 1-3 train and 1-2 test series over 3 labels (test labels among the train labels), 6 label sets, 4 kinds and data of which one part "
             "only has variable length, all assignments of 3 lengths to the series, 1-2 channels with constant, large and tiny-scaled ones, with and without "
             "normalisation, with positional and named arguments; the name lists",
    "thorough": "1-4 train and 1-3 test series"}

LABELS = {"numbers as text": ["1", "2", "10"], "words": ["b", "Zz", "a"], "ints": [3, 1, 2], "negative": [-1, 1, 0], "floats": [2.0, 0.5, 10.0],
          "mixed widths": ["longer label", "x", ""]}
LENGTHS = (3, 4, 6)
PARTS = {"univariate": (0, 0), "multivariate": (0, 0), "univariate_variable": (1, 1), "multivariate_variable": (1, 1), "variable train": (1, 0),
         "variable test": (0, 1), "variable multivariate test": (0, 1)}


def mods():
    from convst.utils import dataset_utils as d
    return d


def channel(i, c, n):
    x = gen(1, n, salt=300 + 10 * i + c)[0]
    k = (i + 2 * c) % 5
    if k == 1:
        return np.full(n, 0.1 * (i + 1))
    if k == 2:
        return x * 1e3 + 1e4
    if k == 3:
        return x * 1e-3
    return x


def build(ctx, kind, ntr, n):
    multi = "multivariate" in kind
    out = []
    for part, (a, b) in zip(PARTS[kind], ((0, ntr), (ntr, n))):
        if part:
            ls = [ctx.pick(LENGTHS, "length") for i in range(a, b)]
        else:
            ls = [ctx.pick(LENGTHS, "length")] * (b - a)
        S = [np.array([channel(i, c, ls[i - a]) for c in range(2 if multi else 1)]) for i in range(a, b)]
        out.append(S)
    return out


def std(x):
    return (x - x.mean()) / (x.std() + 1e-8)


def check_part(got, S, norm, islist, what):
    if isinstance(got, list) != islist:
        raise Violation("%s is a %s" % (what, type(got).__name__))
    if len(got) != len(S):
        raise Violation("%s has %d series instead of %d" % (what, len(got), len(S)))
    for i, (g, s) in enumerate(zip(got, S)):
        if np.shape(g) != s.shape:
            raise Violation("%s: series %d has shape %s instead of %s" % (what, i, np.shape(g), s.shape))
        for c in range(len(s)):
            if not norm:
                ok = bool((np.asarray(g[c]) == s[c]).all())
            else:
                ok = bool((np.abs(np.asarray(g[c]) - std(s[c])) <= 1e-6).all())
            if not ok:
                raise Violation("%s: channel %d of series %d is %s instead of %s%s" % (
                    what, c, i, np.asarray(g[c]).tolist(), (std(s[c]) if norm else s[c]).tolist(), " (standardised)" if norm else ""))


def load(ctx, kind, ntr, nte, labels, lab):
    names = np.array(LABELS[labels])[list(lab)]
    got = build(ctx, kind, ntr, ntr + nte)
    norm = ctx.bool("normalize")
    form = ctx.choose(2, "form")
    asked = []

    def answer(name, split):
        asked.append((name, split))
        if split is None or split.lower() not in ("train", "test"):
            raise Violation("the archive is asked for the part %r" % (split,))
        i = ["train", "test"].index(split.lower())
        S = [s.copy() for s in got[i]]
        return (S if PARTS[kind][i] else np.array(S)), (names[:ntr] if i == 0 else names[ntr:]).copy()
    rt.archive = answer
    d = mods()
    what = "(%s, lengths %s | %s, labels %s | %s, normalize=%s)" % (
        kind, [s.shape[1] for s in got[0]], [s.shape[1] for s in got[1]], names[:ntr].tolist(), names[ntr:].tolist(), norm)
    if form:
        Xa, Xb, ya, yb, ml = d.load_UCR_UEA_dataset_split("The Name", normalize=norm)
    elif norm:
        Xa, Xb, ya, yb, ml = d.load_UCR_UEA_dataset_split("The Name", True)
    else:
        Xa, Xb, ya, yb, ml = d.load_UCR_UEA_dataset_split("The Name")
    if any(a[0] != "The Name" for a in asked):
        raise Violation("datasets %s were asked instead of 'The Name'" % asked)
    code = dict((v, i) for i, v in enumerate(sorted(set(names[:ntr].tolist()))))
    want = [code[v] for v in names.tolist()]
    islist = any(PARTS[kind])
    check_part(Xa, got[0], norm, islist, "train part %s" % what)
    check_part(Xb, got[1], norm, islist, "test part %s" % what)
    if list(ya) != want[:ntr] or list(yb) != want[ntr:]:
        raise Violation("labels %s | %s instead of %s | %s %s" % (list(ya), list(yb), want[:ntr], want[ntr:], what))
    m = min(s.shape[1] for p in got for s in p)
    if ml != m:
        raise Violation("minimum length %s instead of %d %s" % (ml, m, what))
    if len(set(s.shape[1] for p in got for s in p)) > 1 and not islist:
        return
    X, y = d.load_UCR_UEA_dataset("The Name", normalize=norm)
    check_part(X, got[0] + got[1], norm, islist, "whole dataset %s" % what)
    if list(y) != want:
        raise Violation("labels of the whole dataset %s instead of %s %s" % (list(y), want, what))
    ctx.outcome = (kind, labels, tuple(lab), norm, ml, tuple(s.shape[1] for p in got for s in p))


def zfuncs(ctx):
    """The standardisation on its own: same results for an array and a list, for every small shape."""
    d = mods()
    n, ch, m = 1 + ctx.choose(3, "n"), 1 + ctx.choose(3, "channels"), 1 + ctx.choose(5, "length")
    ints = ctx.pick(["generic", "binary"], "values")
    if ints == "generic":
        X = gen(n, ch, m, salt=9) * 3 + 1
    else:
        k = ctx.choose(2 ** min(m, 4), "bits")
        X = np.zeros((n, ch, m))
        for i in range(n):
            for c in range(ch):
                for j in range(m):
                    X[i, c, j] = float((k * (1 + i + 2 * c)) >> (j % 4) & 1)
    a = d.z_norm_3D(X.copy())
    b = d.z_norm_3D_list([x.copy() for x in X])
    for i in range(n):
        for c in range(ch):
            w = std(X[i, c])
            if not (np.abs(np.asarray(a[i][c]) - w) <= 1e-6).all() or not (np.abs(np.asarray(b[i][c]) - w) <= 1e-6).all():
                raise Violation("channel %s standardised to %s (array) and %s (list) instead of %s" % (
                    X[i, c].tolist(), np.asarray(a[i][c]).tolist(), np.asarray(b[i][c]).tolist(), w.tolist()))
    ctx.outcome = (n, ch, m, X.tobytes())


UNIV = """ACSF1 Adiac ArrowHead Beef BeetleFly BirdChicken BME Car CBF Chinatown ChlorineConcentration CinCECGTorso Coffee Computers CricketX
CricketY CricketZ Crop DiatomSizeReduction DistalPhalanxOutlineAgeGroup DistalPhalanxOutlineCorrect DistalPhalanxTW Earthquakes ECG200 ECG5000
ECGFiveDays ElectricDevices EOGHorizontalSignal EOGVerticalSignal EthanolLevel FaceAll FaceFour FacesUCR FiftyWords Fish FordA FordB
FreezerRegularTrain FreezerSmallTrain GunPoint GunPointAgeSpan GunPointMaleVersusFemale GunPointOldVersusYoung Ham HandOutlines Haptics Herring
HouseTwenty InlineSkate InsectEPGRegularTrain InsectEPGSmallTrain InsectWingbeatSound ItalyPowerDemand LargeKitchenAppliances Lightning2 Lightning7
Mallat Meat MedicalImages MiddlePhalanxOutlineAgeGroup MiddlePhalanxOutlineCorrect MiddlePhalanxTW MixedShapesRegularTrain MixedShapesSmallTrain
MoteStrain NonInvasiveFetalECGThorax1 NonInvasiveFetalECGThorax2 OliveOil OSULeaf PhalangesOutlinesCorrect Phoneme PigAirwayPressure PigArtPressure
PigCVP Plane PowerCons ProximalPhalanxOutlineAgeGroup ProximalPhalanxOutlineCorrect ProximalPhalanxTW RefrigerationDevices Rock ScreenType
SemgHandGenderCh2 SemgHandMovementCh2 SemgHandSubjectCh2 ShapeletSim ShapesAll SmallKitchenAppliances SmoothSubspace SonyAIBORobotSurface1
SonyAIBORobotSurface2 StarLightCurves Strawberry SwedishLeaf Symbols SyntheticControl ToeSegmentation1 ToeSegmentation2 Trace TwoLeadECG TwoPatterns
UMD UWaveGestureLibraryAll UWaveGestureLibraryX UWaveGestureLibraryY UWaveGestureLibraryZ Wafer Wine WordSynonyms Worms WormsTwoClass Yoga""".split()
MULTI = """ArticularyWordRecognition AtrialFibrillation BasicMotions Cricket DuckDuckGeese EigenWorms Epilepsy EthanolConcentration ERing FaceDetection
FingerMovements HandMovementDirection Handwriting Heartbeat Libras LSST MotorImagery NATOPS PenDigits PEMS-SF PhonemeSpectra RacketSports
SelfRegulationSCP1 SelfRegulationSCP2 StandWalkJump UWaveGestureLibrary""".split()
VUNI = """AllGestureWiimoteX AllGestureWiimoteY AllGestureWiimoteZ GestureMidAirD1 GestureMidAirD2 GestureMidAirD3 GesturePebbleZ1 GesturePebbleZ2
PickupGestureWiimoteZ PLAID ShakeGestureWiimoteZ""".split()
VMULTI = """AsphaltObstaclesCoordinates AsphaltPavementTypeCoordinates AsphaltRegularityCoordinates CharacterTrajectories InsectWingbeat JapaneseVowels
SpokenArabicDigits""".split()


def names(ctx):
    d = mods()
    f = [("univariate", d.return_all_univariate_dataset_names, UNIV), ("multivariate", d.return_all_multivariate_dataset_names, MULTI),
         ("variable univariate", d.return_all_variable_univariate_dataset_names, VUNI),
         ("variable multivariate", d.return_all_variable_multivariate_dataset_names, VMULTI),
         ("all", d.return_all_dataset_names, UNIV + MULTI + VUNI + VMULTI)]
    kind, fn, want = ctx.pick(f, "list")
    got = [str(v) for v in fn()]
    if len(set(got)) != len(got):
        raise Violation("%s names: %s occur more than once" % (kind, sorted(set(v for v in got if got.count(v) > 1))))
    if set(got) != set(want):
        raise Violation("%s names: missing %s, unexpected %s" % (kind, sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    ctx.outcome = (kind, tuple(got))


def jobs(tier):
    q = tier == "quick"
    out = [("names", "names", {}, 1), ("standardisation", "zfuncs", {}, 5)]
    k = 0
    for ntr in range(1, 4 if q else 5):
        for nte in range(1, 3 if q else 4):
            for kind in sorted(PARTS):
                for lab in itertools.product(range(3), repeat=ntr + nte):
                    if not set(lab[ntr:]) <= set(lab[:ntr]):
                        continue
                    k += 1
                    if ntr + nte >= (4 if q else 6) and k % 7:
                        continue
                    labels = sorted(LABELS)[k % len(LABELS)]
                    out.append(("load %s %d|%d %s %s" % (kind, ntr, nte, "".join(map(str, lab)), labels), "load",
                                dict(kind=kind, ntr=ntr, nte=nte, labels=labels, lab=lab), 3 ** (ntr + nte if any(PARTS[kind]) else 2)))
    return out
