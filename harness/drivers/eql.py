"""C09: equivalent-linear calculations with scripted, erratic, smooth and recorded
motions, with and without resetting the layers."""
import json
import os

import numpy as np
from obs import MR, DC, profile, rvt_motion, rvt_rec, soil, ts_motion, soil_rec
from pystrata import motion, propagation, site
from rec import C, CS, F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("eql")
EQL = propagation.EquivalentLinearCalculator
RVT = bool(os.environ.get("RVT"))      # random-vibration motions (C21)
FDM = bool(os.environ.get("FDM"))      # the frequency-dependent variant (C10)


class Stub(motion.Motion):
    """A motion whose peaks are a stated function of the transfer function."""
    fourier_amps = None

    def __init__(self, freqs, pgv):
        super().__init__(freqs)
        self.p = pgv

    @property
    def pgv(self):
        return self.p

    def calc_pgv(self, tf=None):
        return self.p


class Sum(Stub):
    def calc_peak(self, tf=None, **k):
        return float(np.sum(np.asarray(self.a) * np.abs(tf)))

    def rec(self):
        d = {"fas": CS(self.fourier_amps)} if self.fourier_amps is not None else {}
        return {"kind": "sum", "a": FS(self.a), **d}


class Table(Stub):
    def calc_peak(self, tf=None, **k):
        u = self.c * np.log(np.sum(np.abs(tf)))
        return self.table[int((u - np.floor(u)) * len(self.table))]

    def rec(self):
        return {"kind": "table", "c": F(self.c), "table": FS(self.table)}


class Script(Stub):
    """peaks[k][i] for the k-th wave field and the i-th layer (soft above stiff)."""
    def calc_peak(self, tf=None, **k):
        s = np.sum(np.abs(tf))
        i = 0 if s > self.threshold else 1
        key = tuple(f"{abs(x):.7e}" for x in tf)
        seen = self.seen[i]
        if key not in seen:
            seen[key] = self.peaks[min(len(seen), len(self.peaks) - 1)][i]
        return seen[key]

    def rec(self):
        return {"kind": "script", "script": [FS(p) for p in self.peaks]}


def mot_rec(m):
    if isinstance(m, motion.TimeSeriesMotion):
        k = len(m.freqs)
        d = {"kind": "ts", "n": len(m.calc_time_series()), "dt": F(m.time_step), "fas": CS(m.fourier_amps)}
    elif RVT:
        d = {"kind": "rvt", "fas": CS(m.fourier_amps), **rvt_rec(m)}
    else:
        d = m.rec()
    return {"w": FS(m.angular_freqs), "pgv": F(m.pgv), **d}


def layers(p):
    return [{"eps": FS(la.strain), "G": FS(la.shear_mod), "D": FS(la.damping), "smax": F(la.strain_max)} for la in p]


def begin(case, p):
    tr.new(case)
    tr.ev("profile", raised="", ls=[{"soil": soil_rec(la.soil_type), "vel": F(la.initial_shear_vel), "dmin": F(la.damping_min),
                                     "th": F(la.thickness)} for la in p])


def run(calc, p, m, lin, par, reset=True, expect=""):
    x = {"method": "zr15" if FDM else "eql", "m": mot_rec(m), "lin": {"i": int(lin.index) + 1, "z": F(lin.depth_within), "f": lin.wave_field.name},
         "ratio": F(par["strain_ratio"]), "mag": F(par.get("mag")), "tol": F(par["tolerance"]), "maxit": par["max_iterations"],
         "limit": F(par["strain_limit"] or None), "reset": reset}
    _, raised = call((lambda: calc(m, p, lin)) if reset and r.random() < 0.5 else (lambda: calc(m, p, lin, reset_layers=reset)))
    o, _ = call(lambda: layers(p))
    tr.ev("run", expect=expect, x=x, raised=raised, o=o or [])
    return raised


# ---- behaviours enumerated by the model of the loop
scripts = [] if FDM or RVT else json.load(open(os.environ["SCRIPTS"]))
nl = site.SoilType("a", 18, MR("", [1e-5, 1e-4, 1e-3, 1e-2], [1, 0.8, 0.4, 0.1]), DC("", [1e-5, 1e-4, 1e-3, 1e-2], [0.01, 0.03, 0.1, 0.2]))
for k, s in enumerate(scripts):
    L, ratio = 1e-3, r.choice([0.65, 1.0])
    v1, v2 = 100.0, 2000.0
    pgv = 100 * L * v1
    p = site.Profile([site.Layer(nl, 5, v1), site.Layer(nl, 10, v2), site.Layer(site.SoilType("r", 24, None, 0.01), 0, 2500)])
    strain2 = pgv / 100 / v2
    peaks = []
    for cap, conv in s["steps"]:
        strain2 = strain2 * (1 + 1e-7) if conv else (strain2 * r.choice([1.5, 2.0]) if strain2 < 1e-4 else strain2 / r.choice([1.7, 2.5]))
        peaks.append(((3 * L if cap else L * (1 - 1e-7)) / ratio, strain2 / ratio))
    peaks.append((3 * L / ratio, 7e-5))       # were the loop to go on
    m = Script([0.1, 0.2, 0.3], pgv)
    m.peaks, m.seen, m.threshold = peaks, ({}, {}), 3 * 3.2e-4
    par = {"strain_ratio": ratio, "tolerance": 0.5, "max_iterations": s["maxit"], "strain_limit": L}
    begin(f"script{k}", p)
    run(EQL(**par), p, m, p.location("outcrop", index=-1), par, expect=s["outcome"])

# ---- histories of calculations on one profile
for case in range((n(30, 300) if RVT else n(60, 600)) if FDM else n(90, 900)):
    p = profile(r, kinds=["nl", "nl", "nlmod", "nldamp", "lin"], nmax=3, half=r.choice(["lin", "nl"]), thick=(1, 15), vel=(100, 500))
    begin(case, p)
    nf = 0
    for _ in range(r.randint(1, 3)):
        kind = "rvt" if RVT else r.choice(["sum", "table", "table", "ts"])
        if kind == "rvt":
            m = rvt_motion(r, k=r.choice([4, 6]))
        elif kind == "ts":
            m = ts_motion(r, npts=r.choice([16, 15, 11]), dt=0.02, amp=r.choice([0.02, 0.2, 0.5]))
        else:
            fr = sorted(logu(r, 0.2, 20) for _ in range(4))
            m = (Sum if kind == "sum" else Table)(fr, logu(r, 1, 60))
            m.a = [logu(r, 0.01, 0.5) for _ in fr]
            m.c = r.uniform(5, 30)
            m.table = [logu(r, 1e-5, 3e-2) for _ in range(4)]
        par = {"strain_ratio": r.choice([0.65, 0.5, 1.0]), "tolerance": r.choice([0.01, 1, 10, 40]), "max_iterations": r.choice([1, 2, 4, 10, 15]),
               "strain_limit": r.choice([None, 0, 0.05, 0.005, 1e-3])}
        if kind == "ts":
            par["max_iterations"] = min(par["max_iterations"], 6)
        if FDM:
            if kind == "sum":
                m.fourier_amps = np.array([logu(r, 0.01, 0.5) for _ in m.freqs])
            if kind == "table":
                continue
        if r.random() < 0.25:
            mag = r.choice([5.5, 6, 7.5, 6.8, 8.2])
            par["strain_ratio"] = float(r.choice([EQL, EQL(), propagation.FrequencyDependentEqlCalculator]).calc_strain_ratio(mag))
            args, par = par, {**par, "mag": mag}
        else:
            args = par
        calc = propagation.FrequencyDependentEqlCalculator(method="zr15", **args) if FDM else EQL(**args)
        if r.random() < 0.1 and not FDM:
            par, calc = {"strain_ratio": 0.65, "tolerance": 0.01, "max_iterations": 15, "strain_limit": 0.05}, EQL()
        lin = p.location(r.choice(["outcrop", "within", "incoming_only"]), index=-1)
        if r.random() < 0.25:       # given at the surface, at a layer or within one
            lin = p.location(r.choice(["outcrop", "within", "incoming_only"]), **r.choice([{"index": r.randrange(len(p))}, {"depth": r.uniform(0, p[-1].depth)}]))
        # strains per frequency only suit a motion with as many frequencies
        reset = r.random() < 0.7 or (FDM and len(m.freqs) != nf)
        nf = len(m.freqs)
        run(calc, p, m, lin, par, reset=reset)
tr.close()
