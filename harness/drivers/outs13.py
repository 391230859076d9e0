"""C13: the columns every kind of output records after calculations (C21: with random-vibration motions)."""
import os

import matplotlib.pyplot as plt
import numpy as np
from obs import profile, rvt_motion, rvt_rec, ts_motion
from outs import columns
from pystrata import motion, output, propagation
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("outs13")
O = output
CALCS = {"le": propagation.LinearElasticCalculator, "eql": lambda: propagation.EquivalentLinearCalculator(strain_limit=None, tolerance=1e-7, max_iterations=80),
         "fdm": lambda: propagation.FrequencyDependentEqlCalculator(method=r.choice(["zr15", "ko:20"]), strain_limit=None, tolerance=1e-7, max_iterations=80)}


def where(p, within=False):
    f = "within" if within else r.choice(["outcrop", "within", "incoming_only"])
    if r.random() < 0.4:
        i = r.choice([0, -1, r.randrange(len(p))])
        return {"f": f, "index": i, "depth": "None"}
    d = r.uniform(0, 1) * p[-1].depth if within and r.random() < 0.5 else r.choice([0, 1.2 * p[-1].depth, p[len(p) // 2].depth, r.uniform(0, 1) * p[-1].depth])
    return {"f": f, "index": 0, "depth": F(d)}


def loc(o):
    f = o["f"] if r.random() < 0.5 else motion.WaveField[o["f"]]
    return O.OutputLocation(f, depth=None if o["depth"] == "None" else float(o["depth"]), index=None if o["depth"] != "None" else o["index"])


def freqs():
    k = r.random()
    if k < 0.3:
        return np.array([1, 2, 5, 10, 20])
    if k < 0.4:
        return [0.5, 1, 3, 9.0]
    return np.array(sorted(logu(r, 0.3, 40) for _ in range(5)))


def one(kind, calc, p):
    """(parameters for the specification, function that makes and fills the output)"""
    if kind in ("accel", "arias"):
        o = where(p)
        return {"loc": o}, lambda: (O.AccelerationTSOutput if kind == "accel" else O.AriasIntensityTSOutput)(loc(o))
    if kind == "strain":
        o, pct = where(p, True), r.random() < 0.5
        return {"loc": o, "percent": pct}, lambda: O.StrainTSOutput(loc(o), in_percent=pct) if pct or r.random() < 0.5 else O.StrainTSOutput(loc(o))
    if kind == "stress":
        o, d, nm = where(p, True), r.random() < 0.5, r.random() < 0.7
        if nm and r.random() < 0.4:      # at and about the water table
            o = {"f": "within", "index": 0, "depth": F(min(0.99 * p[-1].depth, max(0.1, p.wt_depth + r.choice([0, 0, -1, 1, 2]))))}
        if (o["depth"] == "None" and o["index"] == 0) or (o["depth"] != "None" and not 0 < float(o["depth"]) < p[-1].depth):
            nm = False
        return {"loc": o, "damped": d, "normalized": nm}, lambda: O.StressTSOutput(loc(o), damped=d, normalized=nm)
    fr = freqs()
    if kind == "fas":
        o, bw = where(p), r.choice([None, 20, 30, "default"])
        kw = {} if bw == "default" else {"ko_bandwidth": bw}
        return {"loc": o, "freqs": FS(fr), "bw": "30" if bw == "default" else str(bw)}, \
            lambda: O.FourierAmplitudeSpectrumOutput(fr, loc(o), **kw)
    if kind == "tfc":
        a, o = where(p), where(p)
        return {"loc_in": a, "loc": o, "freqs": FS(fr)}, lambda: O.AccelTransferFunctionOutput(fr, loc(a), loc(o), absolute=False)
    if kind == "tf":
        a, o, bw = where(p), where(p), r.choice([None, 20, "default"])
        kw = {} if bw == "default" else {"ko_bandwidth": bw}
        return {"loc_in": a, "loc": o, "freqs": FS(fr), "bw": "20" if bw == 20 else "None"}, lambda: O.AccelTransferFunctionOutput(fr, loc(a), loc(o), **kw)
    d = r.choice([0.05, 0.02, 0.2])
    if kind == "rs":
        o = where(p)
        return {"loc": o, "freqs": FS(fr), "damping": F(d)}, lambda: O.ResponseSpectrumOutput(fr, loc(o), d)
    if kind == "rsr":
        a, o = where(p), where(p)
        return {"loc_in": a, "loc": o, "freqs": FS(fr), "damping": F(d)}, lambda: O.ResponseSpectrumRatioOutput(fr, loc(a), loc(o), d)
    cls = {"maxstrain": O.MaxStrainProfile, "damping": O.DampingProfile, "modreduc": O.ShearModReducProfile, "initvel": O.InitialVelProfile,
           "compvel": O.CompatVelProfile, "csr": O.CyclicStressRatioProfile, "maxaccel": O.MaxAccelProfile}[kind]
    return {}, cls


KINDS = ["accel", "arias", "strain", "stress", "fas", "rs", "tf", "tfc", "rsr", "maxstrain", "damping", "modreduc", "initvel", "compvel", "csr", "maxaccel"]


PLOT = bool(os.environ.get("PLOT"))
RVT = bool(os.environ.get("RVT"))
if RVT:
    KINDS = KINDS[4:]


def calculate(calc, m, p, lin):
    def go():
        calc(m, p, loc(lin)(p))
        return [{"rho": F(la.unit_wt / 9.80665), "G": FS(la.shear_mod), "D": FS(la.damping), "th": F(la.thickness), "uw": F(la.unit_wt),
                 "vel": F(la.initial_shear_vel), "smax": F(la.strain_max)} for la in p]

    ls, raised = call(go)
    if RVT:
        return dict(raised=raised, ls=ls or [], wt=F(p.wt_depth), lin=lin, rvt=rvt_rec(m))
    nn = 1
    while nn < len(m.accels):
        nn *= 2
    return dict(raised=raised, ls=ls or [], wt=F(p.wt_depth), lin=lin, rvt=[], a=FS(m.accels), dt=F(m.time_step), n=nn)


def setup(how):
    p = profile(r, nmax=4, thick=(1, 15), half=r.choice(["lin", "nl"]))
    m = rvt_motion(r) if RVT else ts_motion(r, npts=r.choice([16, 16, 11]), dt=r.choice([0.01, 0.02, 0.05]), amp=r.choice([0.05, 0.2]))
    calc = CALCS[how]()
    lin = r.choice([{"f": "outcrop", "index": -1, "depth": "None"}] * 2 + [{"f": "incoming_only", "index": -1, "depth": "None"},
                    {"f": "within", "index": -1, "depth": "None"}, {"f": "outcrop", "index": 0, "depth": F(p[-1].depth + 3)}])

    return calc, p, calculate(calc, m, p, lin)


def evolv(calc, p):
    """Amplification against frequency and depth, as it is shown."""
    base = float(p[-1].depth)
    given = r.random() < 0.8
    depths = sorted({round(r.uniform(0, 1.1) * base, 6) for _ in range(r.randint(2, 4))}) if given else np.linspace(0, base)
    fs = sorted(logu(r, 0.05, 40) for _ in range(r.randint(2, 5)))
    metric = r.choice(["accel_tf", "site_amp"]) if given else "accel_tf"
    normalized, field, d = r.random() < 0.4, r.choice(["within", "outcrop", "default"]), r.choice([0.02, 0.05, 0.2])
    kw = {"freqs": r.choice([fs, np.array(fs)])} if r.random() < 0.85 else {}
    kw.update({"metric": metric} if metric != "accel_tf" or r.random() < 0.5 else {})
    kw.update({"depths": r.choice([depths, np.array(depths)])} if given else {})
    kw.update({"normalized": True} if normalized else {})
    kw.update({"wave_field_out": field} if field != "default" else {})
    kw.update({"osc_damping": d} if d != 0.05 else {})
    kw.update({"diverging_cmap": False} if r.random() < 0.3 else {})
    ax = plt.subplots()[1] if r.random() < 0.5 else None
    kw.update({"ax": ax} if ax is not None else {})
    fs0 = list(fs)
    before = (FS(np.abs(calc.motion.fourier_amps)), FS(p.depth), FS(fs0))

    def go():
        got = O.plot_amplification_evolv(calc, **kw)
        mesh = got.collections[0]
        at = np.asarray(mesh.get_coordinates(), float)
        at, rows = at.reshape(len(depths), -1, 2), np.asarray(mesh.get_array(), float).reshape(len(depths), -1)
        i = list(range(len(fs))) if "freqs" in kw else sorted(r.sample(range(rows.shape[1]), 5))
        grid = bool(np.all(at[:, :, 0] == at[:1, :, 0]) and np.all(at[:, :, 1] == at[:, :1, 1]))
        return got, rows[:, i], got.get_ylim(), at[0, i, 0], at[:, 0, 1], rows.shape == at.shape[:2] and grid

    v, raised = call(go)
    if v and "freqs" not in kw:
        fs = [float(x) for x in v[3]]
    kept = before == (FS(np.abs(calc.motion.fourier_amps)), FS(p.depth), FS(kw.get("freqs", fs0)))
    tr.ev("evolv", raised=raised, metric=metric, normalized=normalized, field="within" if field == "default" else field, damping=F(d), depths=FS(depths), freqs=FS(fs),
          at=[FS(v[3]), FS(v[4])] if v else [[], []], grid=bool(v and v[5]),
          rows=[FS(x) for x in v[1]] if v else [], ylim=FS(v[2]) if v else [], same=ax is None or raised != "" or v[0] is ax, kept=kept)
    plt.close("all")


def show(kind, kw, make, calc):
    """The output of a calculation: the last column of what it holds."""
    def go():
        o = make()
        if r.random() < 0.3:
            o.reset()
        o(calc)
        return o, *(x if np.ndim(x) == 1 else x[:, -1] for x in (o.refs, o.values))

    v, raised = call(go)
    o = v[0] if v else None
    obs = (FS(v[1]), FS(np.real(v[2])) + (FS(np.imag(v[2])) if kind == "tfc" else [])) if v else ([], [])
    tr.ev("out", kind=kind, raised=raised, refs=obs[0], vals=obs[1], periods=FS(o.periods) if v and kind in ("rs", "rsr") else [], **kw)
    return o


def again(how, calc, p, d):
    """Change the profile in place or take another motion, and calculate again."""
    m, lin = calc.motion, d["lin"]

    def change():
        nonlocal m
        for what in r.sample(["thickness", "vel", "wt", "motion"], r.randint(1, 2)):
            if what == "thickness":
                la = r.choice(list(p[:-1]))
                la.thickness = la.thickness * r.uniform(1.1, 2)
            elif what == "vel":
                la = r.choice(list(p))
                la.initial_shear_vel = la.initial_shear_vel * r.uniform(0.8, 1.4)
            elif what == "wt":
                p.wt_depth = p.wt_depth + r.uniform(0.5, 5)
            elif RVT:
                m = rvt_motion(r)
            else:
                m = motion.TimeSeriesMotion("", "", m.time_step, [0.7 * x for x in reversed(list(m.accels))])

    _, raised = call(change)
    if raised:
        return {**d, "raised": raised}
    return calculate(calc, m, p, lin)


for case in range(n(70, 700)):
    tr.new(case)
    how = r.choice(["le", "eql", "eql", "fdm"])
    calc, p, d = setup(how)
    tr.ev("calc", **d)
    if d["raised"]:
        continue
    if how != "le" and not max(np.max(la.max_error) for la in p[:-1]) < 1e-5:
        continue      # the layers are not those the waves were computed with
    if PLOT:
        evolv(calc, p)
        evolv(calc, p)
        continue
    ks = [k for k in KINDS if not (k in ("maxstrain", "csr") and how == "le") and not (k in ("damping", "modreduc", "csr") and how == "fdm")]
    held = []
    for kind in r.sample(ks, 6) + ([] if RVT else ["stress"]):
        kw, make = one(kind, calc, p)
        held.append((kind, kw, show(kind, kw, make, calc)))
    if r.random() < 0.5:
        continue
    # the same outputs and locations again, after the profile or the motion has been changed
    d = again(how, calc, p, d)
    tr.ev("calc", **d)
    if d["raised"] or (how != "le" and not max(np.max(la.max_error) for la in p[:-1]) < 1e-5):
        continue
    for kind, kw, o in r.sample(held, 4):
        if o is not None:
            show(kind, kw, lambda: o, calc)

# one value per layer also where the properties depend on frequency
for kind in () if RVT or PLOT else ("damping", "modreduc", "csr"):
    tr.new(f"fdm-{kind}")
    for _ in range(3):
        calc, p, d = setup("fdm")
        kw, make = one(kind, calc, p)

        def go():
            o = make()
            o(calc)
            return columns(o.values)

        v, raised = call(go)
        tr.ev("shape", kind=kind, raised=raised, n=len(p), vals=v or [])
tr.close()
