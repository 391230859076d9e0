"""The checks: which models and which recorded traces decide each property."""
import json
import re

import vt


def trace(c, driver, name="trace", **env):
    path = c.work / f"{name}.ndjson"
    vt.run_driver(driver, path, c.work, **env)
    return vt.read_nd(path)


def histories(c, name, least=100):
    """All histories of a generating model (GenX.tla), written for a driver to replay them."""
    r = c.model(f"Gen{name}.tla", c.n(f"Gen{name}.cfg", f"Gen{name}Deep.cfg"), min_distinct=least)
    out = sorted(json.loads(m.group(1)) for m in re.finditer(r'<<\s*"HISTORY",\s*("(?:[^"\\]|\\.)*")\s*>>', r.out))
    if len(out) < least:
        raise vt.Machinery(f"only {len(out)} histories read from Gen{name}")
    path = c.work / f"{name}.histories"
    path.write_text("\n".join(out) + "\n")
    c.cov.setdefault("generated_histories_replayed", {})[name] = len(out)
    return path


def c01(c):
    c.model("MCProfile.tla", c.n("MCProfile.cfg", "MCProfileDeep.cfg"), min_distinct=100)
    ev = trace(c, "profile.py")
    c.conform("ProfileTrace.tla", "Trace.cfg", ev, need=("new", "append", "insert", "thick", "wt", "strain", "lookup"))
    ev = trace(c, "profile.py", "generated", HISTORIES=histories(c, "Profile"))
    c.conform("ProfileTrace.tla", "Trace.cfg", ev, need=("new", "append", "insert", "thick", "wt", "strain"), name="generated")


def c02(c):
    c.model("MCProfile.tla", "MCProfile.cfg", min_distinct=100)
    c.conform("LookupTrace.tla", "Trace.cfg", trace(c, "lookup.py"), need=("new", "find", "locdepth", "locindex", "thick", "refuse"))
    c.conform("LookupTrace.tla", "Trace.cfg", trace(c, "lookup.py", "generated", HISTORIES=histories(c, "Profile")), need=("new", "append", "insert", "thick", "wt", "find", "locindex", "locdepth"), name="generated")


def c03(c):
    c.model("ProfileHeap.tla", c.n("MCProfileHeap.cfg", "MCProfileHeapDeep.cfg"), min_distinct=100)
    c.conform("ProfilesTrace.tla", "Trace.cfg", trace(c, "copies.py"),
              need=("make", "copy", "disc", "calc", "thick", "vel", "dmin", "wt", "append"))
    c.conform("ProfilesTrace.tla", "Trace.cfg", trace(c, "copies.py", "generated", HISTORIES=histories(c, "Copies")),
              need=("make", "copy", "disc", "calc", "thick", "vel", "dmin", "wt", "append"), name="generated")


def c04(c):
    c.model("MCCurve.tla", c.n("MCCurve.cfg", "MCCurveDeep.cfg"), min_distinct=100)
    c.conform("CurveTrace.tla", "Trace.cfg", trace(c, "curves.py"),
              need=("new", "strains", "values", "both", "eval", "family", "names", "published"))
    c.conform("CurveTrace.tla", "Trace.cfg", trace(c, "curves.py", "generated", HISTORIES=histories(c, "Curve")), need=("new", "strains", "values", "both", "eval"), name="generated")


def c05(c):
    c.model("MCLayerDyn.tla", c.n("MCLayerDyn.cfg", "MCLayerDynDeep.cfg"), min_distinct=100)
    c.conform("LayerTrace.tla", "Trace.cfg", trace(c, "layer.py"), need=("soil", "new", "strain", "vel", "dmin", "reset", "smax", "adj"))
    c.conform("LayerTrace.tla", "Trace.cfg", trace(c, "layer.py", "generated", HISTORIES=histories(c, "Layer")), need=("new", "strain", "vel", "dmin", "reset", "smax", "adj"), name="generated")


def waves(c, focus, need):
    c.model("MCWaves.tla", c.n("MCWaves.cfg", "MCWavesDeep.cfg"), min_distinct=100)
    ev = trace(c, "waves.py", "numba", FOCUS=focus) + trace(c, "waves.py", "plain", FOCUS=focus, VERIF_NONUMBA="1")
    c.conform("WavesTrace.tla", "Trace.cfg", ev, need=("calc",) + need)


def c06(c):
    waves(c, "C06", ("field", "same"))


def c07(c):
    waves(c, "C07", ("accel", "same"))


def c08(c):
    waves(c, "C08", ("accel", "strain", "stress"))


def loop_scripts(c):
    """The finished behaviours of the loop model, as scripts for the implementation."""
    r = c.model("MCEqlLoop.tla", c.n("MCEqlLoop.cfg", "MCEqlLoopDeep.cfg"), min_distinct=100, workers=1)
    out = []
    for m in re.finditer(r'<<\s*"SCRIPT",\s*(\d+),\s*"(\w+)",\s*<<(.*?)>>\s*>>\s*(?=<<\s*"SCRIPT"|[A-Z])', r.out, re.S):
        steps = [[a == "TRUE", b == "TRUE"] for a, b in re.findall(r"<<\s*(TRUE|FALSE),\s*(TRUE|FALSE)\s*>>", m.group(3))]
        out.append({"maxit": int(m.group(1)), "outcome": m.group(2), "steps": steps})
    if len(out) < 50:
        raise vt.Machinery(f"only {len(out)} scripts read from the loop model")
    path = c.work / "scripts.json"
    path.write_text(json.dumps(out))
    return path, out


def c09(c):
    path, scripts = loop_scripts(c)
    ev = trace(c, "eql.py", SCRIPTS=path)
    c.conform("EqlTrace.tla", "Trace.cfg", ev, need=("profile", "run"))
    res = dict(c.printed)
    c.cov["loop_scripts_replayed"] = len(scripts)
    c.cov["spec_outcomes"] = res
    for k in ("converged", "raised", "limit"):
        if not res.get(k):
            raise vt.Machinery(f"no calculation ended as {k} (vacuous)")
    if res.get("mismatch"):
        raise vt.Machinery("a replayed script does not have the outcome the loop model gives it")
    if res.get("vague", 0) > sum(res.values()) / 3:
        raise vt.Machinery(f"too many undecided calculations: {res}")


def c10(c):
    c.model("MCFdm.tla", c.n("MCFdm.cfg", "MCFdmDeep.cfg"), min_distinct=100)
    c.conform("EqlTrace.tla", "Trace.cfg", trace(c, "eql.py", "loop", FDM="1"), need=("profile", "run"), name="loop")
    c.cov["spec_outcomes"] = dict(c.printed)
    c.conform("FdmTrace.tla", "Trace.cfg", trace(c, "fdm.py"), need=("profile", "run"))


def c11(c):
    c.model("Session.tla", c.n("MCSession.cfg", "MCSessionDeep.cfg"), min_distinct=100, timeout=800)
    c.conform("SessionTrace.tla", "Trace.cfg", trace(c, "session.py"), need=("fresh", "run", "edit", "keep"))
    c.conform("SessionTrace.tla", "Trace.cfg", trace(c, "session.py", "generated", HISTORIES=histories(c, "Session")), need=("objects", "fresh", "run", "edit", "keep"), name="generated")


def c12(c):
    c.model("MCOutputs.tla", c.n("MCOutputs.cfg", "MCOutputsDeep.cfg"), min_distinct=100)
    c.conform("OutputsTrace.tla", "Trace.cfg", trace(c, "outs12.py"), need=("make", "add", "addall", "reset", "resetall", "refused"))
    c.conform("OutputsTrace.tla", "Trace.cfg", trace(c, "outs12.py", "generated", HISTORIES=histories(c, "Outputs")), need=("make", "add", "addall", "reset", "resetall"), name="generated")


def c13(c):
    c.model("MCSignal.tla", c.n("MCSignal.cfg", "MCSignalDeep.cfg"), min_distinct=100)
    c.conform("QuantitiesTrace.tla", "Trace.cfg", trace(c, "outs13.py"), need=("calc", "out", "shape"))


def c14(c):
    c.model("MCStats.tla", c.n("MCStats.cfg", "MCStatsDeep.cfg"), min_distinct=100)
    c.conform("StatsTrace.tla", "Trace.cfg", trace(c, "outs14.py"), need=("held", "stats", "table"))


def c15(c):
    c.model("MCLogicTree.tla", c.n("MCLogicTree.cfg", "MCLogicTreeDeep.cfg"), min_distinct=100)
    c.conform("LogicTreeTrace.tla", "Trace.cfg", trace(c, "trees.py"), need=("tree", "branch", "end", "miller", "byvalue", "choose", "xarray"))
    c.conform("LogicTreeTrace.tla", "Trace.cfg", trace(c, "trees.py", "generated", HISTORIES=histories(c, "Trees")), need=("tree", "branch", "end"), name="generated")


def c16(c):
    c.model("MCSimulate.tla", c.n("MCSimulate.cfg", "MCSimulateDeep.cfg"), min_distinct=100)
    c.conform("SimulateTrace.tla", "TraceSim.cfg", trace(c, "simulate.py"), need=("make", "sim", "count", "half", "calc", "vel", "thick"))


def c18(c):
    c.model("MCSignal.tla", c.n("MCSignal.cfg", "MCSignalDeep.cfg"), min_distinct=100)
    c.conform("SignalTrace.tla", "Trace.cfg", trace(c, "signals.py", FOCUS="C18"), need=("new", "read", "series", "again"))


def c19(c):
    c.model("MCSignal.tla", c.n("MCSignal.cfg", "MCSignalDeep.cfg"), min_distinct=100)
    c.conform("SignalTrace.tla", "Trace.cfg", trace(c, "signals.py", FOCUS="C19"), need=("new", "osc", "read"))


def c17(c):
    c.model("MCVariation.tla", c.n("MCVariation.cfg", "MCVariationDeep.cfg"), min_distinct=100)
    c.conform("VariationTrace.tla", "Trace.cfg", trace(c, "variates.py"), need=("vel", "published", "class", "classes", "layering", "norm", "soil", "profiles", "pct", "refuse"))


def c20(c):
    c.model("MCFiles.tla", c.n("MCFiles.cfg", "MCFilesDeep.cfg"), min_distinct=100)
    c.conform("FilesTrace.tla", "Trace.cfg", trace(c, "files.py"), need=("at2", "smc", "ctl"))


def c21(c):
    c.model("MCRvt.tla", c.n("MCRvt.cfg", "MCRvtDeep.cfg"), min_distinct=100)
    c.conform("RvtTrace.tla", "Trace.cfg", trace(c, "rvt.py"), need=("motion", "pga", "pgv", "peak", "osc", "scaled", "target"))
    c.conform("EqlTrace.tla", "Trace.cfg", trace(c, "eql.py", "eql", RVT="1"), need=("profile", "run"))
    c.conform("EqlTrace.tla", "Trace.cfg", trace(c, "eql.py", "fdm", RVT="1", FDM="1"), need=("profile", "run"))
    c.conform("QuantitiesTrace.tla", "Trace.cfg", trace(c, "outs13.py", "outs", RVT="1"), need=("calc", "out"))


def c22(c):
    c.model("MCColumn.tla", c.n("MCColumn.cfg", "MCColumnDeep.cfg"), min_distinct=100)
    c.conform("ColumnTrace.tla", "Trace.cfg", trace(c, "columns.py", QWL="1"), need=("profile", "qwl", "fit"))


def c24(c):
    c.model("MCColumn.tla", c.n("MCColumn.cfg", "MCColumnDeep.cfg"), min_distinct=100)
    c.conform("ColumnTrace.tla", "Trace.cfg", trace(c, "columns.py"), need=("avg", "vs30", "travel", "slow", "rayleigh", "edit", "calcd"))


def c23(c):
    c.model("MCDamping.tla", c.n("MCDamping.cfg", "MCDampingDeep.cfg"), min_distinct=100)
    c.conform("DampingTrace.tla", "Trace.cfg", trace(c, "damping.py"), need=("profile", "atten", "scatter", "adjust", "calc"))


def c25(c):
    c.model("MCGeneric.tla", c.n("MCGeneric.cfg", "MCGenericDeep.cfg"), min_distinct=100)
    c.conform("GenericTrace.tla", "Trace.cfg", trace(c, "generic.py"), need=("file", "load", "stress", "kea16", "fetch"))


def c26(c):
    c.model("MCSoilModels.tla", c.n("MCSoilModels.cfg", "MCSoilModelsDeep.cfg"), min_distinct=1000)
    c.conform("SoilModelsTrace.tla", "Trace.cfg", trace(c, "soils.py"), need=("soil", "wang", "columns"))


def c27(c):
    c.model("MCPlots.tla", c.n("MCPlots.cfg", "MCPlotsDeep.cfg"), min_distinct=100)
    c.conform("PlotsTrace.tla", "Trace.cfg", trace(c, "plots.py"), need=("make", "add", "plot", "prof"))
    for rvt in ("", "1"):
        c.conform("QuantitiesTrace.tla", "Trace.cfg", trace(c, "outs13.py", "evolv" + rvt, PLOT="1", RVT=rvt), need=("calc", "evolv"))


def c28(c):
    c.model("MCKeys.tla", c.n("MCKeys.cfg", "MCKeysDeep.cfg"), min_distinct=100)
    c.conform("KeysTrace.tla", "Trace.cfg", trace(c, "keys.py"), need=("objs", "pair", "put", "get", "drop", "unique", "change", "index", "types"))
    c.conform("KeysTrace.tla", "Trace.cfg", trace(c, "keys.py", "generated", HISTORIES=histories(c, "Keys")), need=("objs", "pair", "put", "get", "drop", "change"), name="generated")


TECH = {"*": "TLA+ specification: TLC model checking of the design, TLC validation of traces recorded from the real code"}
NOTE = {"*": "The TLA+ design is checked exhaustively within small constants; each recorded history of the real code is validated event by event against the same specification by TLC. Trusts TLC, the binary64 override of Num.tla and the recording driver; covers the histories recorded."}

def _built():
    return {k.upper(): v for k, v in sorted(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


CHECKS = {k: (v, "model_checking") for k, v in _built().items()}


def run(pid):
    fn, level = CHECKS[pid]
    return vt.main(pid, fn, level)
