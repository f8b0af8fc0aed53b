"""What each property's check runs: configurations of the specification to
model check (emit: their behaviours are replayed on the code), histories."""


def laws(name, dim, T, inv=(), prop=(), two=False, rich=False, emit=False):
    return {"name": "MCLaws/" + name, "module": "MCLaws.tla", "inv": list(inv) + (["EmitCases"] if emit else []), "prop": list(prop),
            "const": {"MaxT": T, "Dim": dim, "Rich": rich, "Two": two, "Emit": emit}, "emit": emit}


def laws_all(inv=(), prop=(), dims=(1, 2, 3), T=3):
    d = {1: laws("n=1", 1, T, inv, prop), 2: laws("n=2,m=1", 2, T, inv, prop), 3: laws("n=2,m=2", 2, T, inv, prop, two=True)}
    return [d[k] for k in dims]


def laws_deep(inv=(), prop=()):
    return [laws("n=1,long", 1, 4, inv, prop), laws("n=1,rich", 1, 2, inv, prop, rich=True),
            laws("n=2,m=1,long", 2, 5, inv, prop), laws("n=2,m=1,rich", 2, 2, inv, prop, rich=True),
            laws("n=2,m=2,long", 2, 5, inv, prop, two=True)]


def ekf(T, inv=(), prop=(), rich=False, emit=False):
    return {"name": "MCEkf/T=%d%s" % (T, ",rich" if rich else ""), "module": "MCEkf.tla", "prop": list(prop),
            "inv": list(inv) + (["EmitCases"] if emit else []), "const": {"MaxT": T, "Rich": rich, "Emit": emit}, "emit": emit}


def hist(name, objs, calls, kinds):
    return {"name": "MCHist/" + name, "module": "MCHist.tla", "emit": True,
            "const": {"Obj": "{%s}" % ", ".join(map(str, range(1, objs + 1))), "Model": "MCModel", "ZOf": "MCZ", "UOf": "MCU",
                      "MaxCalls": calls, "Kinds": "{%s}" % ", ".join(map(str, kinds)), "Emit": True},
            "inv": ["ResultsFunctional", "GainLog", "SmoothLast", "EmitModels", "EmitScripts"],
            "prop": ["GainsAppendOnly", "ModelFixed", "Isolation", "CallsEnd"]}


EMIT1, EMIT2 = laws("emit n=1", 1, 2, emit=True), laws("emit n=2", 2, 3, emit=True)
EMIT3 = laws("emit n=2,m=2", 2, 3, emit=True, two=True)
LIN = [EMIT1, EMIT2, EMIT3]
H1 = hist("1 object", 1, 4, (1, 2, 3, 4, 5))
H1D = hist("1 object, 5 calls", 1, 5, (1, 2, 3, 4, 5))
H2 = hist("2 objects", 2, 4, (3, 4))
H2D = hist("2 objects, 3 kinds", 2, 4, (1, 3, 4))


def live(name, calls, kinds):
    d = hist(name, 1, calls, kinds)
    return dict(d, name="MCLive/" + name, module="MCLive.tla", spec="LiveSpec",
                inv=["ResultsFunctional", "LiveLog", "SmoothLast", "InForce", "EmitModels", "EmitLive"],
                prop=["OwnerOnly", "Isolation", "CallsEnd"])


def stop(name, calls, kinds, objs=1):
    d = hist(name, objs, calls, kinds)
    return dict(d, name="MCStop/" + name, module="MCStop.tla", spec="StopSpec",
                inv=["StopFunctional", "StopLog", "SmoothLast", "Forgotten", "EmitModels", "EmitStop"],
                prop=["GainsAppendOnly", "ModelFixed", "Isolation", "CallsEnd"])


S1 = stop("1 object", 4, (1, 2, 3))
S1D = stop("1 object, 4 kinds", 4, (1, 2, 3, 4))


def place(dim, ln, cells):
    return {"name": "MCPlace", "module": "MCPlace.tla", "emit": True, "prop": [],
            "inv": ["PlaceholderAbsent", "GivenUnchanged", "NumberNeverAbsent", "EmitCases"],
            "const": {"MaxDim": dim, "MaxLen": ln, "MaxCells": cells, "Emit": True}}


def linear(inv=(), prop=(), emit=(), dims=(1, 2, 3), extra=(), extra_deep=()):
    return {"mc": list(emit) + laws_all(inv, prop, dims) + list(extra), "mc_thorough": laws_deep(inv, prop) + list(extra_deep)}


REPO_LAWS = ["Always", "Identifies", "PlainIffReleased", "ReleasedIsTag", "DirtyIffMarked", "UntaggedForm", "OtherTagsIgnored",
             "BranchFree", "FutureTagsIgnored", "ElsewhereAgrees", "AbbrevOnlyInHash", "ArchiveAgrees", "ArtsSound"]


def repo(name, ops, commits, arts, tags="MCTags", br="MCBr", emit=False, abbrev="7"):
    return {"name": "MCRepo/" + name, "module": "MCRepo.tla", "view": "View", "emit": emit, "prop": ["CommitStep", "Frozen"],
            "inv": REPO_LAWS + (["EmitScripts"] if emit else []),
            "const": {"MaxOps": ops, "MaxCommits": commits, "MaxArts": arts, "AbbrevLens": "{%s}" % abbrev, "TagNames": tags, "BrNames": br, "Emit": emit}}


def styles(rich=False, emit=True):
    return {"name": "MCStyles" + ("/rich" if rich else ""), "module": "MCStyles.tla", "emit": emit, "prop": [],
            "inv": ["CleanTagExact", "LongAlwaysHash", "OneLocal", "StartsWithTag", "CarriesState", "ErrorUnknown"] +
                   (["EmitCases"] if emit else []), "const": {"Rich": rich, "Emit": emit}}


def layout(rich=False):
    return {"name": "MCLayout" + ("/rich" if rich else ""), "module": "MCLayout.tla", "emit": True, "prop": [],
            "inv": ["NeverEmpty", "ErrorIffUnknown", "KeywordsFirst", "NoPreRelease", "OnlyVersionTags", "DirsLast", "FarDirsIgnored",
                    "EmitCases"], "const": {"Rich": rich, "Emit": True}}


PLAN = {
    "V01": {"mc": [repo("histories", 5, 3, 0, emit=True, abbrev="7, 12")], "mc_thorough": [repo("longer", 7, 4, 0, "MCTagsSmall", "MCBrSmall")],
            "trace": "TraceVersion"},
    "V02": {"mc": [styles(), repo("histories", 4, 3, 0, emit=True)], "mc_thorough": [styles(True)], "trace": "TraceVersion"},
    "V03": {"mc": [layout()], "mc_thorough": [layout(True)], "trace": "TraceVersion"},
    "V04": {"mc": [repo("builds", 4, 3, 2, "MCTagsSmall", "MCBrSmall", emit=True), layout()],
            "mc_thorough": [repo("longer", 5, 3, 2, "MCTagsSmall", "MCBrSmall")], "trace": "TraceVersion"},
    "K01": linear(["FilterIsPosterior", "RunMatches"], emit=LIN),
    "K02": linear(["SmootherIsPosterior"], emit=LIN),
    "K03": linear(["PredictionIsImage"], emit=[EMIT2]),
    "K04": linear(["GainOptimal"], emit=[EMIT3]),
    "K05": linear(["AbsentIsZero", "ControlAtOwnStep"], emit=[EMIT1], extra=[ekf(2, ["AbsentIsZero"])]),
    "K06": {"mc": [H1, S1], "mc_thorough": [H1D, S1D]},
    "K07": {"mc": [H1, S1], "mc_thorough": [H1D, S1D]},
    "K08": linear(prop=["Causal"], extra=[ekf(2, prop=["Causal"])], extra_deep=[ekf(3, prop=["Causal"])]),
    "K09": linear(["Splittable"], extra=[ekf(2, ["Splittable"])], extra_deep=[ekf(3, ["Splittable"])]),
    "K10": linear(["CovValid"], emit=[EMIT3], extra=[ekf(2, ["CovValid"])], extra_deep=[ekf(3, ["CovValid"])]),
    "K11": linear(["Affine"]),
    "K12": linear(["Coordinates"]),
    "K13": linear(["Sequential", "Irrelevant", "Averaging", "Blocks"]),
    "K14": {"mc": [EMIT1, EMIT3]},
    "K15": {"mc": [live("1 object", 5, (1, 3, 4))], "mc_thorough": [live("1 object, 6 calls", 6, (1, 3, 4))]},
    "K16": {"mc": [H2], "mc_thorough": [H2D]},
    "K17": linear(["UndefinedCut"]),
    "E01": {"mc": [ekf(2, ["RunMatches", "JacobiansRight", "IsTangent"], emit=True)],
            "mc_thorough": [ekf(3, ["RunMatches", "JacobiansRight", "IsTangent"])]},
    "E02": {"mc": [ekf(2, ["BackMatches", "BackIsTangent"], emit=True)], "mc_thorough": [ekf(3, ["BackMatches", "BackIsTangent"])]},
    "E03": {"mc": [ekf(2, ["IsTangent", "BackIsTangent"])], "mc_thorough": [ekf(3, ["IsTangent", "BackIsTangent"])]},
    "E04": {"mc": [ekf(2, ["CallPoints"], ["Causal"], emit=True)], "mc_thorough": [ekf(3, ["CallPoints"], ["Causal"])]},
    "U01": {"mc": [place(2, 3, 4)], "mc_thorough": [place(3, 3, 6)]},
}

TECH = "TLA+ specification model checked with TLC; executions of the code recorded and validated against it (trace conformance)"
TECH_E = "TLA+ specification model checked with TLC; its behaviours replayed on the code, recorded executions validated against it"
for _p in PLAN.values():
    _p["technique"] = TECH_E if any(c["emit"] for c in _p["mc"]) else TECH

_TRUST = " Not a proof for all inputs. Trusts TLC, the exact rational overrides (checked against their TLA+ definitions in setup) and the recorder."
_STEP = "Specification: %s, exhaustively at small bounds (1-2 states, 1-2 observed components, short series). Code: %s."
NOTES = {p: _STEP % n + _TRUST for p, n in {
    "K01": ("filter recursion equals the joint-Gaussian posterior", "every value of every explored run judged against its exact rational step, whole runs against the joint Gaussian"),
    "K02": ("smoother recursion equals the posterior given the whole series", "every smoothed value judged against the exact backward step, whole runs against the joint Gaussian"),
    "K03": ("the prediction is the image of the posterior", "direct predictions judged against the exact step, argument digests compared"),
    "K04": ("the gain is the optimal one", "direct updates judged against the exact correction, gain log and argument digests compared"),
    "K05": ("absent control is zero control and control acts at its own step", "pairs of runs with and without control compared and judged"),
    "K06": ("append-only gain logs over all call histories of one object", "those histories replayed, each logged gain judged against the exact one"),
    "K07": ("results are a function of model and data over all call histories", "those histories replayed, every result compared with a fresh twin's, arrays and their aliasing observed"),
    "K08": ("causality of both filters", "runs compared with truncated runs and with runs whose later data or parameters differ"),
    "K09": ("runs split anywhere", "runs compared with every kind of split and with hand-driven steps"),
    "K10": ("covariances valid and ordered", "recorded covariances tested with exact rational definiteness, up to 1e-9 of their scales"),
    "K11": ("affinity in the data", "weighted combinations of runs compared"),
    "K12": ("equivariance under coordinate changes", "transformed runs compared"),
    "K13": ("sequential, irrelevant, averaged and block observations", "runs on equivalent models compared"),
    "K14": ("the reference runs whose behaviours are replayed", "the same numbers in other array representations compared, shapes and kinds observed"),
    "K15": ("results are a function of the model in force over call histories with reassigned models", "those histories replayed, every value judged against the exact step of the model in force"),
    "K16": ("isolation over all interleavings of calls on two objects", "those interleavings replayed at loop-step granularity, threads at line granularity, against solo runs"),
    "K17": ("undefined steps end the call", "exactly singular steps run at every position, exception, gain log and later use judged"),
    "E01": ("linearisation points and tangent law of polynomial models", "every explored step judged against the exact step of the model at the recorded point"),
    "E02": ("backward linearisation points and tangent law", "every explored backward step judged against the exact one"),
    "E03": ("tangent law of the extended filter", "both filters run side by side on affine models and compared"),
    "E04": ("the points callbacks are called at", "every recorded callback call must be at a legal point"),
}.items()}
NOTES["U01"] = "Specification and code: every array up to the stated size with every NaN pattern, in every dtype and layout of the harness." + _TRUST
NOTES["V01"] = "Specification: laws of versions over all repository histories up to 5 operations. Code: those histories and longer random ones replayed on real git repositories and compared with the specified version. Not a proof for all histories; trusts TLC, git and the replay."
NOTES["V02"] = "Specification: laws of every style over all pieces of the universe. Code: all of them rendered, plus real repositories in every style. Tags outside the pool are not covered."
NOTES["V03"] = "Specification: the fallback chain over all layouts of the universe. Code: those layouts built on disk with real, stub, failing and absent git. Not a proof for all layouts."
NOTES["V04"] = "Specification: histories with builds. Code: real sdist, build and install-tree builds in scratch repositories, versions compared from several directories and environments. Not a proof for all histories."
NOT_APPLICABLE = {}
