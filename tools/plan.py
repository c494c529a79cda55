"""What each check runs: models, generated behaviours, scenarios on the code, trace specifications."""

PLAN = {}


def check(pid, **kw):
    def deco(fn):
        PLAN[pid] = dict(fn=fn, **kw)
        return fn
    return deco


# --- message layer ------------------------------------------------------------
@check("N01")
def n01(c):
    c.model("Network", "MCNetwork.cfg")
    c.model("Framing", "MCFraming.cfg", workers=2)
    if c.thorough:
        c.model("Network", "MCNetworkBig.cfg", workers=8, mem="12g")
        c.model("Framing", "MCFramingBig.cfg", workers=4)
    g = c.gen("GenNet", "GenNet.cfg", num=400 if c.thorough else 120)
    c.validate(c.run("traffic"), "TraceNet", "TraceDelivery.cfg")
    c.validate(c.run("replay", g), "TraceNet", "TraceDelivery.cfg")


@check("N02")
def n02(c):
    c.model("Setup", "MCSetup.cfg")
    c.model("Framing", "MCFraming.cfg", workers=2)
    if c.thorough:
        c.model("Setup", "MCSetupBig.cfg", workers=8)
    c.validate(c.run("mesh"), "TraceNet", "TraceDelivery.cfg")


@check("N03")
def n03(c):
    c.model("MCCollect", "MCCollect.cfg")
    g = c.gen("MCCollect", "GenCollectBig.cfg" if c.thorough else "GenCollect.cfg")
    c.validate(c.run("collect", g), "TraceCollect", mem="3g")


@check("N04")
def n04(c):
    c.model("Barrier", "MCBarrier.cfg")
    c.model("Barrier", "MCBarrier2p.cfg")
    c.model("Barrier", "MCBarrier1.cfg", fails="Live")
    g = c.gen("GenBarrier", "GenBarrier.cfg", num=600 if c.thorough else 150, depth=200)
    c.validate(c.run("barrier", g), "TraceBarrier")


@check("N05")
def n05(c):
    c.model("Network", "MCNetwork.cfg")
    g = c.gen("GenNet", "GenNet.cfg", num=400 if c.thorough else 120)
    c.validate(c.run("traffic"), "TraceNet", "TraceNet.cfg")
    c.validate(c.run("replay", g), "TraceNet", "TraceNet.cfg")


@check("N06")
def n06(c):
    c.model("ProtoId", "MCProtoId.cfg")
    if c.thorough:
        c.model("ProtoId", "MCProtoIdBig.cfg", workers=8)
    c.validate(c.run("ids"), "TraceIds", mem="3g")


# --- field, encodings, matrices -------------------------------------------------
@check("M01")
def m01(c):
    for w in (1, 2, 3, 4, 5):
        c.model("MCGF", "MCGF%d.cfg" % w, workers=2)
    traces = []
    for order in range(4):
        traces += c.run("field", extra=[order])
    c.validate(traces, "TraceField")
    # All processes agree on the polynomials.
    f = c.path("all.ndjson")
    with open(f, "w") as o:
        for t in traces:
            o.writelines(x for x in open(t) if '"e":"field"' in x or '"e":"init"' in x)
    c.validate([f], "TraceField")


@check("M02")
def m02(c):
    c.model("MCCodec", "MCCodec.cfg", workers=2)
    c.validate(c.run("codec"), "TraceCodec")
    c.validate(c.run("store"), "TraceCodec")


@check("M03")
def m03(c):
    for order in range(5 if c.thorough else 3):
        c.validate(c.run("sample", extra=[order]), "TraceSample")


@check("M04")
def m04(c):
    for w in (1, 2, 3):
        c.model("MCGF", "MCGF%d.cfg" % w, workers=2)
    c.validate(c.run("interp"), "TraceInterp")


@check("M05")
def m05(c):
    c.validate(c.run("matrices"), "TraceMatrix")
    c.validate(c.run("binary"), "TraceBinary")


# --- packed secret sharing ---------------------------------------------------------
def shares(c, scenario, models):
    for m in models:
        c.model("MCShare", m, workers=2)
    c.validate(c.run(scenario), "TraceShare", mem="3g")


@check("S01")
def s01(c):
    shares(c, "s01", ["MCShare.cfg", "MCShare3.cfg"])


@check("S02")
def s02(c):
    shares(c, "s02", ["MCShare.cfg", "MCShare3.cfg"])


@check("S03")
def s03(c):
    shares(c, "s03", ["MCShare.cfg", "MCShare3.cfg"])


@check("S04")
def s04(c):
    shares(c, "s04", ["MCShare.cfg", "MCShare3.cfg", "MCShare4.cfg"])


# --- circuits ------------------------------------------------------------------------
def circuits(c, scenario):
    c.model("MCCircuit", "MCCircuit.cfg")
    g = c.gen("GenCircuit", "GenCircuit.cfg", keep=None if c.thorough else 10000)
    s = c.gen("GenCircuit", "GenCircuitSim.cfg", num=600 if c.thorough else 200, depth=30)
    c.validate(c.run(scenario, g) + c.run(scenario, s), "TraceCircuit", mem="3g")


@check("K01")
def k01(c):
    circuits(c, "k01")


@check("K02")
def k02(c):
    circuits(c, "k02")


# --- protocols -------------------------------------------------------------------------
def openings(c):
    for m in "ABC":
        c.model("MCProto", "MCProto%s.cfg" % m, workers=2)


def schedules(c):
    num = 2000 if c.thorough else 300
    return [c.gen("GenProto", "GenProto%s.cfg" % m, num=num, depth=60) for m in "ABC"]


@check("P01")
def p01(c):
    openings(c)
    c.validate(c.run("p01"), "TraceMPC", mem="3g")


@check("P02")
def p02(c):
    openings(c)
    c.validate(c.run("p02"), "TraceMPC", mem="3g")


@check("P03")
def p03(c):
    c.model("MCMask", "MCMaskA.cfg", workers=2)
    c.model("MCMask", "MCMaskB.cfg", fails="Independent", workers=2)
    c.validate(c.run("p03"), "TraceMPC", mem="3g")
    c.validate(c.run("p03g"), "TraceMPC", mem="3g")


@check("P05")
def p05(c):
    c.model("MCCoalition", "MCCoalition.cfg", workers=4)
    c.model("MCCoalition", "MCCoalitionThin.cfg", fails="Independent", workers=2)
    c.model("MCCoalition", "MCCoalitionBare.cfg", fails="Independent", workers=2)
    c.validate(c.run("p05"), "TraceMPC", mem="3g")
    c.validate(c.run("p05g"), "TraceMPC", mem="3g")


@check("P04")
def p04(c):
    openings(c)
    c.model("MCProto", "MCProtoD.cfg", fails="Correct", workers=2)
    c.model("MCProto", "MCProtoE.cfg", fails="Completes", workers=2)
    c.model("MCPipeline", "MCPipeline.cfg")
    c.model("MCPipeline", "MCPipelineFew.cfg", fails="NoError", workers=2)
    c.model("MCPipeline", "MCPipelineShared.cfg", fails="NoError", workers=2)
    if c.thorough:
        c.model("MCPipeline", "MCPipelineB.cfg", workers=8)
    for g in schedules(c):
        c.validate(c.run("p04", g), "TraceMPC", mem="3g")
    c.validate(c.run("p04"), "TraceMPC", mem="3g")
    c.validate(c.run("p04p"), "TraceMPC", mem="3g")
    c.validate(c.run("p04g"), "TraceGarble", mem="3g")


# --- joint randomness ---------------------------------------------------------------------
@check("R01")
def r01(c):
    for k in ("Rand", "Zero", "Bit"):
        c.model("JointGen", "MCJoint%s.cfg" % k, workers=2)
    c.validate(c.run("r01"), "TraceMPC", mem="3g")


@check("R02")
def r02(c):
    for k in ("Rand", "Zero", "Bit"):
        c.model("JointGen", "MCJoint%s.cfg" % k, workers=2)
    for k in ("Rand", "Bit"):
        c.model("JointGen", "MCJoint%sBad.cfg" % k, fails="Unpredictable", workers=2)
    c.validate(c.run("r02"), "TraceMPC", mem="3g")


def material(c):
    c.model("Material", "MCMaterial.cfg", workers=2)
    c.model("Material", "MCMaterial2.cfg", workers=2)
    c.model("Material", "MCMaterialShort.cfg", fails="Suffices", workers=2)


@check("R03")
def r03(c):
    material(c)
    c.validate(c.run("r03"), "TraceMPC", mem="3g")


@check("R04")
def r04(c):
    material(c)
    c.validate(c.run("r04"), "TraceGarble", mem="3g")


# --- garbling -------------------------------------------------------------------------------
def garblings(c):
    c.model("MCGarble", "MCGarble.cfg")
    c.model("MCGarble", "MCGarble3.cfg")
    c.model("MCGarble", "MCGarbleWrong.cfg", fails="Evaluated", workers=2)


@check("G01")
def g01(c):
    garblings(c)
    g = c.gen("GenCircuit", "GenCircuit.cfg", keep=1500 if c.thorough else 200)
    c.validate(c.run("g01"), "TraceGarble", mem="3g")
    c.validate(c.run("g01", g), "TraceGarble", mem="3g")


@check("G02")
def g02(c):
    garblings(c)
    c.validate(c.run("g02"), "TraceGarble", mem="3g")


@check("G03")
def g03(c):
    c.model("Nonce", "MCNonce.cfg", workers=2)
    c.model("Nonce", "MCNonce1.cfg", workers=2)
    c.model("Nonce", "MCNoncePos.cfg", fails="OnceWithKey", workers=2)
    c.model("Nonce", "MCNonceWrap.cfg", fails="OnceWithKey", workers=2)
    if c.thorough:
        c.model("Nonce", "MCNonceBig.cfg", workers=8)
    c.validate(c.run("g03"), "TraceGarble", mem="3g")


@check("G04")
def g04(c):
    c.model("MCNoisy", "MCNoisy.cfg", workers=4)
    c.model("MCNoisy", "MCNoisyMore.cfg", fails="Decoded", workers=2)
    c.model("MCNoisy", "MCNoisyTwice.cfg", fails="Decoded", workers=2)
    if c.thorough:
        c.model("MCNoisy", "MCNoisyBig.cfg", workers=8)
    c.validate(c.run("g04"), "TraceGarble", mem="3g")


# --- programs --------------------------------------------------------------------------------
@check("B01", bins=True)
def b01(c):
    c.model("Bench", "MCBench.cfg")
    c.model("Bench", "MCBenchNone.cfg", fails="AllExit")
    c.model("BenchFig", "MCBenchFig.cfg", workers=2)
    c.model("BenchFig", "MCBenchFigExact.cfg", fails="Exact", workers=2)
    if c.thorough:
        c.model("Bench", "MCBench3.cfg", workers=8)
        c.model("Bench", "MCBench3n.cfg", workers=8)
        c.model("BenchFig", "MCBenchFig4.cfg", workers=8)
    c.validate(c.run("b01", extra=[c.programs()]), "TraceBench")


@check("B02", bins=True)
def b02(c):
    c.validate(c.run("b02", extra=[c.programs()]), "TraceBench")


@check("E01")
def e01(c):
    c.model("MCCost", "MCCost.cfg", workers=2)
    c.model("MCCost", "MCCostAlways.cfg", fails="Always", workers=2)
    if c.thorough:
        c.model("MCCost", "MCCostBig.cfg", workers=8)
    c.validate(c.run("e01"), "TraceCost")
