"""Builders and observers shared by the drivers."""
import hashlib

import numpy as np
from rec import F, FS  # first: it may hide numba
from pystrata import motion, site


class Ids:
    """Small integers for object identities (objects are kept alive)."""

    def __init__(self):
        self.of, self.keep = {}, []

    def __call__(self, o):
        if id(o) not in self.of:
            self.of[id(o)] = len(self.of) + 1
            self.keep.append(o)
        return self.of[id(o)]


def curve(c):
    if c is None:
        return "None"
    if hasattr(c, "strains"):
        return [FS(c.strains), FS(c.values)]
    return FS(c)


def st_content(st):
    """What a soil type is (text digest)."""
    d = repr((type(st).__name__, st.name, F(st.unit_wt), curve(st.mod_reduc), curve(st.damping)))
    return hashlib.sha1(d.encode()).hexdigest()[:12]


def cv(c):
    lo, hi = ("0.001", "1") if isinstance(c, site.ModulusReductionCurve) else ("0", "0.49")
    if not isinstance(c, site.NonlinearCurve):
        return []
    up = np.argsort(c.strains)          # the points may be tabulated in any order
    return [{"x": FS(np.asarray(c.strains)[up]), "y": FS(np.asarray(c.values)[up]), "lo": lo, "hi": hi}]


def soil_rec(st):
    """A soil type as the specification's LayerDyn has it."""
    lin = not isinstance(st.damping, site.NonlinearCurve)
    return {"uw": F(st.unit_wt), "mr": cv(st.mod_reduc), "dd": cv(st.damping), "sdmin": F(st.damping) if lin else "nan"}


def layer_obs(ids, la):
    return {"id": ids(la), "st": ids(la.soil_type), "stc": st_content(la.soil_type), "nl": bool(la.soil_type.is_nonlinear),
            "th": F(la.thickness), "vel": F(la.initial_shear_vel), "dmin": F(la.damping_min), "uw": F(la.unit_wt),
            "depth": F(la.depth), "sv": F(la.stress_vert()), "G": FS(la.shear_mod), "D": FS(la.damping),
            "eps": FS(la.strain if la.strain is not None else [])}


def profile_obs(ids, p):
    return {"wt": F(p.wt_depth), "ls": [layer_obs(ids, la) for la in p]}


MR = site.ModulusReductionCurve
DC = site.DampingCurve


def soil(r, kind=None, name=None, uw=None):
    """A soil type; kinds: lin, nl, nlmod (only modulus), nldamp (only damping), dar."""
    kind = kind or r.choice(["lin", "nl", "nl", "dar", "nlmod", "nldamp"])
    uw = uw or r.choice([16.0, 18.0, 20.0, round(r.uniform(14, 25), 2)])
    name = name or r.choice(["sand", "clay", "fill", "rock"])
    eps = [1e-6, 1e-5, 1e-4, 1e-3, 1e-2]
    mods = sorted([r.uniform(0.05, 1) for _ in eps], reverse=True)
    mods[0] = 1.0
    damp = sorted([r.uniform(0.005, 0.2) for _ in eps])
    if kind in ("nl", "nlmod", "nldamp") and r.random() < 0.15:      # tabulated from large to small strains
        eps, mods, damp = eps[::-1], mods[::-1], damp[::-1]
    if kind == "lin":
        return site.SoilType(name, uw, None, r.choice([0.01, 0.02, round(r.uniform(0.002, 0.08), 4)]))
    if kind == "nl":
        return site.SoilType(name, uw, MR("", eps, mods), DC("", eps, damp))
    if kind == "nlmod":
        return site.SoilType(name, uw, MR("", eps, mods), 0.02)
    if kind == "nldamp":
        return site.SoilType(name, uw, None, DC("", eps, damp))
    return site.DarendeliSoilType(uw, plas_index=r.choice([0, 10, 30]), ocr=1, stress_mean=r.choice([50, 100, 400]), name=name)


def profile(r, kinds=None, nmax=5, half=None, vel=(100, 900), thick=(0.5, 30), share=0.4, wt=None):
    pool = []
    ls = []
    whole = r.random() < 0.25      # whole numbers are as common as others
    num = (lambda v: max(1, int(round(v)))) if whole else (lambda v: v)
    many = r.random() < 0.03      # many layers now and then
    for _ in range(r.randint(10, 18) if many else r.randint(1, nmax)):
        if pool and r.random() < share:
            st = r.choice(pool)
        else:
            st = soil(r, kind=r.choice(kinds) if kinds else None)
            pool.append(st)
        ls.append(site.Layer(st, num(r.choice([2.0, r.uniform(*thick)])), num(r.choice([200.0, r.uniform(*vel)])), r.choice([None, None, 0.015, 0.0])))
    hs = soil(r, kind=half or "lin", name="bedrock", uw=24.0)
    ls.append(site.Layer(hs, 0, num(r.choice([760.0, r.uniform(800, 2500)])), r.choice([None, 0.007, 0.0])))
    return site.Profile(ls, r.choice([0, 3, 1e3, r.uniform(0, 30)]) if wt is None else wt)


def ts_motion(r, npts=64, dt=0.02, amp=0.1):
    """A short random accelerogram with a decaying envelope."""
    t = np.arange(npts) * dt
    a = np.array([r.gauss(0, 1) for _ in range(npts)]) * np.exp(-t / (npts * dt / 3)) * np.minimum(1, t / (5 * dt))
    a = amp * a / np.max(np.abs(a))
    return motion.TimeSeriesMotion("", "", dt, a)


def rvt_motion(r, k=None, amp=None):
    """A random-vibration motion whose peaks follow Davenport (1964)."""
    f = sorted(float(np.exp(r.uniform(np.log(0.15), np.log(30)))) for _ in range(k or r.randint(4, 12)))
    a = amp or r.choice([0.01, 0.05, 0.2])
    s = [a * r.uniform(0.2, 1) * x / (1 + x * x) for x in f]
    if r.random() < 0.3:      # also given from high to low frequencies
        return motion.RvtMotion(f[::-1], s[::-1], duration=r.uniform(2, 30), peak_calculator="D64")
    return motion.RvtMotion(np.array(f), np.array(s), duration=r.uniform(2, 30), peak_calculator="D64")


def rvt_rec(m):
    return {"f": FS(m.freqs), "S": FS(m.fourier_amps), "dur": F(m.duration)}
