"""C05: histories of strain assignments, resets and edits of single layers."""
import numpy as np
from obs import soil, soil_rec
from pystrata import site
from rec import F, FS, Trace, call, histories, logu, n, rng

tr = Trace()
r = rng("layer")


def observe(la):
    return {"G": FS(la.shear_mod), "D": FS(la.damping), "G0": F(la.initial_shear_mod), "vs": FS(la.shear_vel), "mr": FS(la.shear_mod_reduc),
            "eps": FS(la.strain), "dmin": F(la.damping_min), "vel": F(la.initial_shear_vel), "te": FS(la.stress_shear_eff),
            "err": F(la.max_error), "smax": F(la.strain_max), "tm": FS(la.stress_shear_max) if la.strain_max is not None else []}


def step(ev, fn, **kw):
    o = {}
    v, raised = call(fn)
    if not (raised or quiet):
        o, raised = call(lambda: observe(box["la"]))
    tr.ev(ev, raised=raised, o=o or {}, **kw)
    return not raised


def soil_obs(st):
    return {"rec": soil_rec(st), "rho": F(st.density), "dmin": F(st.damping_min), "nl": bool(st.is_nonlinear),
            "q": F(st.quality) if st.damping_min > 0 else "nan", "name": st.name}


def adjusted():
    v, raised = call(lambda: la.adjusted_damping_curve)
    up = np.argsort(v.strain) if not raised else []
    tr.ev("adj", raised=raised, x=FS(v.strain[up]) if not raised else [], y=FS(v.damping[up]) if not raised else [], o={})
    return not raised


box = {}
quiet, seen = False, set()
gen = histories()
for case, h in enumerate(gen or []):      # every history of the generating model
    tr.new(case)
    for i, o in enumerate(h):
        op, x = o["op"], float(o.get("x", "nan"))
        quiet = repr(h[:i + 1]) in seen   # the same beginning has been looked at in another history
        seen.add(repr(h[:i + 1]))
        if op == "new":
            curve = {True: (site.ModulusReductionCurve("", [1e-5, 1e-3], [1, 0.2]), site.DampingCurve("", [1e-5, 1e-3], [0.01, 0.15])), False: (None, 0.02)}
            st = site.SoilType("", 18.0, curve[o["mr"] == 1][0], curve[o["dd"] == 1][1])

            def make():
                global la
                la = box["la"] = site.Layer(st, 5.0, 200.0, 0.03)
            ok = step("new", make, soil=soil_rec(st), vel="200.0", dmin="0.03")
        elif op == "strain":
            x = [float(y) for y in o["xs"]]
            ok = step(op, lambda: setattr(la, "strain", x[0] if len(x) == 1 else np.array(x)), x=FS(x))
        elif op == "reset":
            ok = step(op, lambda: la.reset())
        elif op == "adj":
            ok = adjusted()
        else:
            name = {"vel": "initial_shear_vel", "dmin": "damping_min", "smax": "strain_max"}[op]
            ok = step(op, lambda: setattr(la, name, x), x=F(x))
        if not ok:
            break
quiet = False
for case in range(0 if gen else n(300, 4000)):
    tr.new(case)
    st = soil(r)
    if isinstance(st.damping, site.NonlinearCurve) and r.random() < 0.2:
        st.damping.values = np.array(st.damping.values) * r.choice([0.0, 0.5, 1.3])     # no or different damping, limits apply
    vel = r.choice([200.0, r.uniform(80, 2500)])
    dm = r.choice([None, None, 0.0, 0.015, r.uniform(0, 0.1)])
    th = r.choice([1.0, 5.0])

    v, raised = call(lambda: (soil_obs(st), soil_obs(st.copy()), st.copy() is not st))
    tr.ev("soil", raised=raised, soil=soil_rec(st), name=st.name, obs=[v[0], v[1]] if v else [], apart=bool(v and v[2]))

    def make():
        box["la"] = site.Layer(st, th, vel, dm) if dm is not None else site.Layer(st, th, vel)

    if not step("new", make, soil=soil_rec(st), vel=F(vel), dmin=F(dm)):
        continue
    la = box["la"]
    m = r.randint(2, 5)      # number of frequencies of the motion
    for _ in range(r.randint(3, 12)):
        op = r.choice(["strain"] * 6 + ["vel", "dmin", "reset", "smax", "adj", "vector"])
        if op == "strain":
            x = r.choice([0.0, 1e-6, 1e-4, logu(r, 1e-8, 0.3), logu(r, 1e-6, 1e-2)])
            ok = step("strain", lambda: setattr(la, "strain", x), x=[F(x)])
        elif op == "vector":
            x = np.array([logu(r, 1e-7, 0.1) for _ in range(m)])
            ok = step("strain", lambda: setattr(la, "strain", x), x=FS(x))
            if ok and r.random() < 0.6:
                x = x * r.choice([1.0, 1.01, 0.7])
                ok = step("strain", lambda: setattr(la, "strain", x), x=FS(x))
        elif op == "vel":
            x = r.uniform(80, 2500)
            ok = step("vel", lambda: setattr(la, "initial_shear_vel", x), x=F(x))
        elif op == "dmin":
            x = r.choice([0.0, r.uniform(0, 0.1)])
            ok = step("dmin", lambda: setattr(la, "damping_min", x), x=F(x))
        elif op == "reset":
            ok = step("reset", lambda: la.reset())
        elif op == "smax":
            x = logu(r, 1e-6, 0.05)
            ok = step("smax", lambda: setattr(la, "strain_max", x), x=F(x))
        else:
            ok = adjusted()
        if not ok:
            break
tr.close()
