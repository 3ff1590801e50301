"""The jobs of the check of each property, for the quick and thorough tiers."""

BASE = ["Converts", "Finite"]


def bounds(env, clauses, **kw):
    """Scenarios of the bounds families (Gen.tla), replayed with bounds_worker.py and validated by TraceBounds.tla."""
    return dict(gen="GenRun", env={"N_" + k: v for k, v in env.items()}, worker="bounds_worker.py", trace="TraceBounds",
                clauses=BASE + clauses, **kw)


def session(env, clauses, **kw):
    """Histories of calls (GenSession.tla), replayed with session_worker.py and validated by TraceSession.tla."""
    return dict(gen="GenSession", env={"N_" + k: v for k, v in env.items()}, worker="session_worker.py", trace="TraceSession",
                clauses=["Runs", "FiniteReply"] + clauses, **kw)


def ops(env, clauses, **kw):
    """Single operators and layers on bounds drawn by GenOps.tla, replayed with op_worker.py and validated by TraceOps.tla."""
    return dict(gen="GenOps", env={"N_" + k: v for k, v in env.items()}, worker="op_worker.py", trace="TraceOps", clauses=["OpRuns"] + clauses, **kw)


def chunks(tier, mk, n):
    """One replay job in the quick tier, n of them with different seeds in the thorough tier."""
    return [dict(mk(), salt=i) for i in range(1 if tier == "quick" else n)]


def _b(prop_covers, quick, thorough, clauses, n=4, level="model_checking", extra=None):
    def mk(tier):
        fam = quick if tier == "quick" else thorough
        return dict(level=level, covers=prop_covers, jobs=chunks(tier, lambda: bounds(fam, clauses), n) + (extra(tier) if extra else []))
    return mk


def _s(prop_covers, quick, thorough, clauses, n=4, level="model_checking", extra=None):
    def mk(tier):
        fam = quick if tier == "quick" else thorough
        return dict(level=level, covers=prop_covers, jobs=chunks(tier, lambda: session(fam, clauses), n) + (extra(tier) if extra else []))
    return mk


def model(module, quick=None, thorough=None):
    """A model-level job: the small configuration in both tiers, the larger ones in the thorough tier."""
    def mk(tier):
        cfgs = [quick or module] + ([c for c in ([thorough] if isinstance(thorough, str) else thorough or [])] if tier != "quick" else [])
        return [dict(module=module, cfg=c, workers=2 if tier == "quick" else 4, timeout=700 if tier == "quick" else 6000) for c in cfgs]
    return mk


PROPAGATE = model("PropagateModel", thorough=["PropagateSigns", "PropagateDeep"])
MERGE = model("MergeModel", thorough="MergeBig")
GEO = model("GeoModel", thorough="GeoBig")
QUERY = model("QueryModel", thorough="QueryBig")
SESSION = model("SessionModel")

PROPS = {
    "C01": _b("Networks, boxes, sample points and conversions generated by the specification (Gen.tla) are replayed on both backends; "
              "the recorded constant bounds are compared by TLC with the exact values of the network.",
              dict(MLP=24, ACT=1, CONV=16, POOL=6, GEO=1, MERGE=1, NEST=1, GROW=12), dict(MLP=60, ACT=4, CONV=0, POOL=0, GEO=1, MERGE=1, NEST=1, MONO=20, GROW=80, MAPS=20),
              ["ConstSound"], extra=PROPAGATE),
    "C02": _b("As C01, for the affine bounds, evaluated at every sample point of every box.",
              dict(MLP=24, ACT=1, CONV=16, POOL=6, GEO=1, MERGE=1, NEST=1, GROW=12), dict(MLP=60, ACT=4, CONV=0, POOL=0, GEO=1, MERGE=1, NEST=1, GROW=80, MAPS=20),
              ["AffSound"], extra=PROPAGATE),
    "C03": _b("Every activation, method and slope on a grid of intervals of pre-activations.",
              dict(ACT=6), dict(ACT=24), ["ConstSound", "AffSound", "Ordered"], extra=PROPAGATE),
    "C04": _b("All configurations of convolution and pooling (data format, padding, stride, kernel, dilation) and the other reshaping layers.",
              dict(CONV=0, POOL=0, GEO=1), dict(CONV=0, POOL=0, GEO=1, AFFGEO=30), ["ConstSound", "AffSound", "Exact", "Semantics"], extra=GEO),
    "C05": _b("Every merge layer with two, three and four operands, residual, shared, siamese and nested networks, graphs grown at random.",
              dict(MERGE=1, NEST=1, GROW=24, MAPS=8), dict(MERGE=1, NEST=1, GROW=100, MAPS=30), ["ConstSound", "AffSound", "IntervalExact", "Semantics"], n=10, extra=MERGE),
    "C06": _b("Networks which are affine on the box, boxes reduced to a point: bounds equal to the exact affine function and extrema.",
              dict(AFF=24, AFFGEO=12, MLP=8), dict(AFF=90, AFFGEO=40, MLP=30), ["Exact"], extra=PROPAGATE),
    "C07": _b("Interval-only bounds compared with interval arithmetic, nested boxes, hybrid bounds compared with interval-only ones.",
              dict(MONO=40, MLP=12, CONV=8, POOL=4, MERGE=1), dict(MONO=150, MLP=40, CONV=0, POOL=0, MERGE=1, GEO=1, NEST=1),
              ["IntervalExact", "HybridTighter", "Monotone", "ConstSound"], extra=PROPAGATE),
    "C08": _b("Balls of the three norms around random centres.",
              dict(BALL=10), dict(BALL=40), ["ConstSound", "AffSound", "Exact", "Exact2", "LinfBox", "Ordered"], extra=PROPAGATE),
    "C09": _b("All methods with all combinations of requested outputs.",
              dict(FORM=12, MLP=6), dict(FORM=60, MLP=30), ["Forms", "Ordered", "ConstVsAffine", "ConstSound", "AffSound"], extra=PROPAGATE),
    "C10": _s("Range queries generated by the specification (networks, converted or not, batches with repetitions, sub-boxes, batch sizes), "
              "whose replies must be allowed by the state of Session.tla.",
              dict(RANGE=24), dict(RANGE=90), ["RangeShape", "RangeSound", "RangeExact", "BatchSame"], extra=QUERY),
    "C11": lambda tier: dict(
        level="model_checking",
        covers="Refinements of boxes of every shape replayed on refine_boxes, and the sub-boxes examined by the range, adversarial and refined "
               "queries, validated against SubBox.tla; every refinement of small boxes with every function on their points explored by TLC.",
        jobs=model("SubBoxModel", thorough="SubBoxBig")(tier) +
             chunks(tier, lambda: dict(gen="GenSub", env=dict(N_PARTS=24, N_QUERY=16) if tier == "quick" else dict(N_PARTS=120, N_QUERY=80),
                                       worker="sub_worker.py", trace="TraceSub",
                                       clauses=["Runs", "SubShape", "SubInside", "SubCovers", "SubDisjoint", "SubCount"]), 6)),
    "C12": _s("Adversarial scores and attack searches, for every form of labels and targets.",
              dict(ADV=24), dict(ADV=90), ["ScoreShape", "ScoreSound", "ScoreAttained", "ScoreExact", "BatchSame"], extra=QUERY),
    "C13": _s("Noise queries on Keras networks and on converted networks, in histories which change the domain.",
              dict(NOISE=16), dict(NOISE=60), ["RangeShape", "RangeSound", "RangeExact", "ScoreShape", "ScoreSound", "ScoreExact", "BatchSame",
                                               "CallShape", "CallConst", "CallAffine", "CallFresh"], extra=SESSION),
    "C14": _s("Conversions, weight updates and calls; the original network is compared with its specification after each history.",
              dict(FOLLOW=14), dict(FOLLOW=56), ["CallShape", "CallConst", "CallAffine", "CallFresh", "OrigEnd", "Semantics"],
              extra=lambda tier: SESSION(tier) + [bounds(dict(MLP=6, CONV=6, POOL=3, GEO=1, MERGE=1, NEST=1, KEEP=8) if tier == "quick"
                                         else dict(MLP=40, ACT=3, CONV=0, POOL=0, GEO=1, MERGE=1, NEST=1, BALL=6, FORM=10, KEEP=60),
                                         ["OrigUnchanged", "ConstSound", "AffSound"])]),
    "C15": _s("Random, extreme and binary values of the trainable relaxation parameters, and resets.",
              dict(TUNE=14), dict(TUNE=56), ["CallShape", "CallConst", "CallAffine", "CallFresh"], extra=SESSION),
    "C16": _s("Batches of several sizes and orders, compared row by row with single inputs.",
              dict(BATCH=18), dict(BATCH=72), ["CallShape", "CallFresh"], extra=QUERY),
    "C17": _s("Linear specifications of the output, different for each sample.",
              dict(SPEC=21), dict(SPEC=84), ["SpecShape", "SpecConst", "SpecAffine"], extra=PROPAGATE),
    "C18": _s("Every history of a bounded length over an alphabet of calls, and random walks of Session.tla.",
              dict(EXH=2, WALK=8), dict(EXH=3, WALK=40),
              ["CallShape", "CallConst", "CallAffine", "CallFresh", "RangeShape", "RangeSound", "RangeExact", "ScoreShape", "ScoreSound", "BatchSame",
               "OrigEnd"], n=2, extra=SESSION),
    "C19": lambda tier: dict(
        level="model_checking",
        covers="Descriptions obtained by rewriting a network (Equiv.tla): converted on both backends, the bounds are compared by TLC with those of "
               "the first description; every rewriting of small networks up to 3 steps preserves the function and its propagation (EquivModel.tla).",
        jobs=model("EquivModel", thorough="EquivModelBig")(tier) +
             chunks(tier, lambda: dict(gen="GenEquiv", env=dict(N_EQUIV=12, N_VAR=2) if tier == "quick" else dict(N_EQUIV=40, N_VAR=4),
                                       worker="equiv_worker.py", trace="TraceEquiv", clauses=["Converts", "SameFunction", "SameBounds"],
                                       shards=(("torch", 4),)), 5)),
    "C20": _s("Refined searches, random or greedy, with any number of splits.",
              dict(REFINE=24), dict(REFINE=90), ["RangeShape", "RangeSound", "RangeExact", "ScoreShape", "ScoreSound", "ScoreAttained",
                                                 "ScoreExact", "RefineTighter", "BatchSame"], extra=model("SubBoxModel", thorough="SubBoxBig")),
    "C21": lambda tier: dict(
        level="model_checking",
        covers="Operators on bounds and converted layers, on operands whose consistent bounds (tight or loose, on boxes and balls) are drawn by "
               "GenOps.tla, in the three modes; results compared by TLC with the exact values and with interval arithmetic (OpSem.tla).",
        jobs=chunks(tier, lambda: ops(dict(OPS=1, LAYERS=1) if tier == "quick" else dict(OPS=3, LAYERS=3),
                                      ["OpShape", "OpConst", "OpAffine", "OpExact", "OpInterval", "Semantics"]), 5)),
    "C22": lambda tier: dict(
        level="model_checking",
        covers="Backward layers on inputs whose consistent bounds are drawn by GenOps.tla; each relaxation is compared by TLC with the exact values "
               "of the layer on the domain (OpSem.tla).",
        jobs=chunks(tier, lambda: ops(dict(OPS=0, LAYERS=3 if tier == "quick" else 6), ["BackRuns", "BackShape", "BackSound", "BackExact"]), 5)),
    "C23": lambda tier: dict(
        level="model_checking",
        covers="Every loss of decomon.metrics.loss for classifiers, domains and conversions generated by GenLoss.tla; the values are compared by TLC "
               "with the exact margins, excesses and radii of the network at the sample points (TraceLoss.tla).",
        jobs=chunks(tier, lambda: dict(gen="GenLoss", env=dict(N_LOSS=24 if tier == "quick" else 120), worker="loss_worker.py", trace="TraceLoss",
                                       clauses=["LossRuns", "LossFinite", "LossShape", "LossMean", "LossUpper", "LossLower", "LossAdv", "LossClip", "LossSigmoid",
                                                "LossSoftmax", "LossExact", "CrossEntropy", "Asymptotic", "LossTight", "RadiusSound", "RadiusExact", "Semantics"]), 4)),
}

NOTES = {}
