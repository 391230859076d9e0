"""C06-C08: linear-elastic calculations (initial, converged equivalent-linear and
frequency-dependent properties) and requests for fields and transfer functions."""
import os

import numpy as np
from obs import profile, soil, ts_motion
from pystrata import motion, propagation, site
from rec import CS, F, FS, Trace, call, logu, n, rng

FOCUS = os.environ["FOCUS"]
NAT = "nonumba" if os.environ.get("VERIF_NONUMBA") else "numba"
tr = Trace()
r = rng("waves" + FOCUS)      # the same histories with and without numba
FIELDS = ["outcrop", "within", "incoming_only"]
LE = propagation.LinearElasticCalculator


def loc_rec(loc):
    return {"i": int(loc.index) + 1, "z": F(loc.depth_within), "f": loc.wave_field.name}


def record(calc, p):
    ls = [{"rho": F(la.unit_wt / 9.80665), "G": FS(la.shear_mod), "D": FS(la.damping), "th": F(la.thickness)} for la in p]
    at = [site.Location(i, la, f, 0) for f in ("incoming_only", "within") for i, la in enumerate(p)]
    v = [CS(calc.wave_at_location(a)) for a in at]
    k = len(p)
    return {"ls": ls, "w": FS(calc.motion.angular_freqs), "up": v[:k], "within": v[k:],
            "gm": [CS(la.comp_shear_mod) for la in p], "gv": [CS(la.comp_shear_vel) for la in p]}


def anywhere(p, field=None):
    field = field or r.choice(FIELDS)
    if r.random() < 0.6:
        i = r.randrange(len(p))
        la = p[i]
        z = 0 if field == "outcrop" and r.random() < 0.5 else r.choice([0, la.thickness / 2, r.uniform(0, 1) * la.thickness, la.thickness])
        return site.Location(i, la, field, z)
    return p.location(field, depth=r.choice([0, r.uniform(0, 1.2) * (p[-1].depth + 1)]))


def column():
    k = r.random()
    if k < 0.1:        # no impedance contrast
        st = soil(r, "lin")
        v = r.uniform(150, 800)
        p = site.Profile([site.Layer(st, r.uniform(1, 20), v) for _ in range(r.randint(1, 3))] + [site.Layer(st, 0, v)])
        return p
    if k < 0.15:       # half-space only
        return site.Profile([site.Layer(soil(r, "lin"), 0, 500)])
    if k < 0.3:        # heavy damping, beyond the limit
        ls = [site.Layer(site.SoilType("s", 18, None, r.choice([0.3, 0.49, 0.5, 0.7])), r.uniform(0.5, 4), r.uniform(100, 300))
              for _ in range(r.randint(1, 3))]
        return site.Profile(ls + [site.Layer(soil(r, "lin"), 0, 900)])
    return profile(r, nmax=r.choice([5, 5, 5, 5, 12]), thick=(0.5, 15), half=r.choice(["lin", "lin", "nl"]))


def heavy():
    ls = []
    for _ in range(r.randint(1, 3)):
        k = sorted(r.uniform(0.02, 0.49) for _ in range(4))
        st = site.SoilType("s", 18, site.ModulusReductionCurve("", [1e-5, 1e-4, 1e-3, 1e-2], [1, 0.9, 0.7, 0.4]),
                           site.DampingCurve("", [1e-5, 1e-4, 1e-3, 1e-2], k))
        ls.append(site.Layer(st, r.uniform(0.5, 4), r.uniform(100, 300), r.choice([None, k[0] + r.uniform(0, 0.3)])))
    return site.Profile(ls + [site.Layer(soil(r, "lin"), 0, 900)])


def split(p):
    """The same column with one layer cut into equal pieces; where each layer went."""
    i = r.randrange(max(1, len(p) - 1))
    m = r.choice([2, 3])
    ls, first = [], []
    for k, la in enumerate(p):
        first.append(len(ls))
        if k == i and k < len(p) - 1:
            ls += [site.Layer(la.soil_type, la.thickness / m, la.initial_shear_vel, la.damping_min) for _ in range(m)]
        else:
            ls.append(site.Layer(la.soil_type, la.thickness, la.initial_shear_vel, la.damping_min))
    return site.Profile(ls, p.wt_depth), first, i, m


def moved(loc, q, first, i, m):
    k, z = loc.index, loc.depth_within
    if k == i and k < len(first) - 1:
        h = q[first[k]].thickness
        j = min(m - 1, int(z / h))
        return site.Location(first[k] + j, q[first[k] + j], loc.wave_field, z - j * h)
    return site.Location(first[k], q[first[k]], loc.wave_field, z)


for case in range(n(60, 700)):
    tr.new(f"{NAT}/{case}")
    p = column()
    how = r.choice(["le", "le", "le", "eql", "fdm", "set"])
    if how == "set":       # properties by frequency, among them dampings beyond the limit
        p = heavy() if r.random() < 0.5 else p
    if how in ("le", "set"):
        mot = motion.Motion(r.choice([[0, 0.5, 2.0, 9.3], [0.1, 1, 5, 10.0, 33.0], sorted(logu(r, 0.05, 50) for _ in range(5)),
                                      list(np.linspace(0, 40, 6))]))
    else:
        mot = ts_motion(r, npts=r.choice([16, 12]), amp=r.choice([0.05, 0.2]))
    lin = p.location(r.choice(FIELDS), index=-1)
    calc = LE()

    def run():
        if how == "le":
            calc(mot, p, lin)
            return
        if how == "set":
            for la in p:
                if la.soil_type.is_nonlinear:
                    la.strain = np.array([logu(r, 1e-6, 0.03) for _ in mot.freqs]) if r.random() < 0.7 else logu(r, 1e-6, 0.03)
            calc(mot, p, lin, reset_layers=False)
            return
        first = {"eql": propagation.EquivalentLinearCalculator(strain_limit=None, tolerance=1e-4, max_iterations=30),
                 "fdm": propagation.FrequencyDependentEqlCalculator(method="zr15", strain_limit=None)}[how]
        first(mot, p, lin)
        calc(mot, p, lin, reset_layers=False)

    _, raised = call(run)
    d = {}
    if not raised:
        d, raised = call(lambda: record(calc, p))
    tr.ev("calc", raised=raised, how=how, **(d or {"ls": [], "w": []}))
    if raised:
        continue

    def tf(ev, a, b, damped=None):
        fn = {"accel": lambda: calc.calc_accel_tf(a, b), "strain": lambda: calc.calc_strain_tf(a, b),
              "stress": lambda: calc.calc_stress_tf(a, b, damped)}[ev]
        v, raised = call(fn)
        kw = {"damped": damped} if ev == "stress" else {}
        tr.ev(ev, a=loc_rec(a), b=loc_rec(b), raised=raised, v=CS(v) if not raised else [], **kw)
        return None if raised else np.array(v)

    kinds = {"C06": ["field", "split"], "C07": ["accel", "accel", "accel", "compose"], "C08": ["strain", "stress", "stress", "strain", "accel"]}[FOCUS]
    locs = [lin, anywhere(p), anywhere(p), p.location("outcrop", index=-1)]
    outs = [anywhere(p, "within") for _ in range(2)] + [site.Location(0, p[0], "within", 0)]
    for _ in range({"C06": 4, "C07": 5, "C08": 7}[FOCUS]):
        op = r.choice(kinds)
        a = r.choice(locs)
        b = anywhere(p) if FOCUS != "C08" else r.choice(outs)
        if op == "field":
            v, raised = call(lambda: (calc.wave_at_location(b), calc.wave_at_location(site.Location(0, p[0], "incoming_only", 0))))
            tr.ev("field", p=loc_rec(b), raised=raised, v=CS(v[0]) if v else [], ref=CS(v[1]) if v else [])
        elif op in ("accel", "strain"):
            tf(op, a, b)
        elif op == "stress":
            tf(op, a, b, r.random() < 0.5)
        elif op == "compose":
            m, e = anywhere(p), anywhere(p)
            x, y, z = tf("accel", a, m), tf("accel", m, e), tf("accel", a, e)
            self_ = tf("accel", a, a)
            inv = tf("accel", m, a)
            if any(q is None for q in (x, y, z, self_, inv)):
                continue
            sc = F(np.max(np.abs(np.r_[x * y, z])) + 1)
            if np.all(np.abs(x) > 1e-5):
                tr.ev("same", raised="", what="Composition", a=loc_rec(a), v=CS(x * y), u=CS(z), scale=sc)
                tr.ev("same", raised="", what="Inverse", a=loc_rec(a), v=CS(x * inv), u=CS(np.ones(len(x))), scale=F(1 + np.max(np.abs(inv))))
            tr.ev("same", raised="", what="Identity", a=loc_rec(a), v=CS(self_), u=CS(np.ones(len(x))), scale="1")
        elif op == "split" and how == "le":
            q, first, i, m = split(p)
            c2 = LE()
            w = anywhere(p, "within")
            pairs, raised = call(lambda: (
                c2(mot, q, q.location(lin.wave_field, index=-1)),
                [(calc.calc_accel_tf(lin, b), c2.calc_accel_tf(moved(lin, q, first, i, m), moved(b, q, first, i, m))),
                 (calc.calc_strain_tf(lin, w), c2.calc_strain_tf(moved(lin, q, first, i, m), moved(w, q, first, i, m)))])[1])
            for what, (u, v) in zip(("SplitAccel", "SplitStrain"), pairs or []):
                tr.ev("same", raised=raised, what=what, a=loc_rec(lin), v=CS(v), u=CS(u), scale=F(np.max(np.abs(u)) + 1e-9))
            if raised:
                tr.ev("same", raised=raised, what="Split", a=loc_rec(lin), v=[], u=[], scale="1")
tr.close()
