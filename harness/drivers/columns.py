"""C24: averages of the velocity column, before and after calculations and edits; C22: quarter-wavelength calculations."""
import os

import numpy as np
from obs import profile, soil, st_content, ts_motion
from pystrata import motion, propagation, site
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
QWL = bool(os.environ.get("QWL"))
r = rng("columns" + os.environ.get("QWL", ""))


def cols(p, given):
    return [{"th": F(t), "v": F(v), "rho": F(la.soil_type.unit_wt / 9.80665), "cur": F(la.shear_vel), "st": st_content(la.soil_type), "dmin": F(la.damping_min)}
            for la, (t, v) in zip(p, given)]


def column():
    """(profile, thicknesses and velocities given)"""
    k = r.random()
    if k < 0.2:                             # uniform, possibly in several layers
        v, uw = r.choice([200.0, 760.0]), 20.0
        st = soil(r, "lin", uw=uw)
        ls = [site.Layer(st, r.choice([5, 10.0, 12.5]), v) for _ in range(r.randint(0, 4))] + [site.Layer(soil(r, "lin", "rock", uw=uw), 0, v)]
        p = site.Profile(ls, 0)
    elif k < 0.35:                          # exactly 30 m deep, or with an interface there
        ls = [site.Layer(soil(r), t, r.choice([150, 300, 450.0])) for t in r.choice([[10, 20], [30], [10, 10, 10], [15, 15, 20]])]
        p = site.Profile(ls + [site.Layer(soil(r, "lin", "rock"), r.choice([0, 10]), 900)], 5)
    else:
        p = profile(r, nmax=6, thick=r.choice([(0.5, 6), (1, 30), (20, 200)]), vel=r.choice([(100, 900), (300, 700), (150, 400)]), half=r.choice(["lin", "nl"]))
        if r.random() < 0.6:                # stiffer with depth
            for la, v in zip(p, sorted(la.initial_shear_vel for la in p)):
                la.initial_shear_vel = v
    return p, [(la.thickness, la.initial_shear_vel) for la in p]


def depths(p):
    b = p[-1].depth
    return r.choice([30, 30.0, b or 1.0, 0.5 * b or 2.0, b + 10, 3 * b + 1, r.uniform(0.1, 1.5) * (b or 20), p[len(p) // 2].depth or 4.0, 1e-3, 100])


def averages(case):
    p, given = column()
    tr.ev("profile", raised="", ls=cols(p, given))
    for _ in range(r.randint(4, 10)):
        op = r.choice(["avg", "avg", "avg", "vs30", "travel", "slow", "rayleigh", "edit", "calc", "strain", "strain", "reset"])
        if op == "avg":
            z = depths(p)
            v, raised = call(lambda: p.time_average_vel(z))
            tr.ev(op, raised=raised, z=F(z), v=F(v), ls=cols(p, given))
        elif op == "vs30":
            v, raised = call(p.vs30)
            tr.ev(op, raised=raised, v=F(v))
        elif op == "travel":
            v, raised = call(lambda: (FS(p.travel_time), FS([la.travel_time for la in p])))
            tr.ev(op, raised=raised, v=v[0] if v else [], each=v[1] if v else [], ls=cols(p, given))
        elif op == "slow":
            v, raised = call(lambda: FS(p.slowness))
            tr.ev(op, raised=raised, v=v or [])
        elif op == "rayleigh":
            if len(p) > 1:
                v, raised = call(p.simplified_rayliegh_vel)
                tr.ev(op, raised=raised, v=F(v))
        elif op == "edit":
            i = r.randrange(len(p))
            k = r.choice(["thick", "vel", "insert", "append"])

            def go():
                if k == "thick" and i < len(p) - 1:
                    p[i].thickness = r.uniform(1, 25)
                    given[i] = (p[i].thickness, given[i][1])
                elif k == "vel":
                    v = r.choice([r.uniform(150, 900), 300])
                    p[i].initial_shear_vel = v
                    given[i] = (given[i][0], v)
                elif k == "insert":
                    t, v = r.uniform(1, 25), r.uniform(150, 900)
                    p.insert(i, site.Layer(soil(r), t, v))
                    given.insert(i, (t, v))
            _, raised = call(go)
            tr.ev("edit", raised=raised, ls=cols(p, given) if not raised else [])
        elif op == "calc":
            m = ts_motion(r, npts=32, amp=r.choice([0.05, 0.3]))
            c = r.choice([propagation.LinearElasticCalculator, lambda: propagation.EquivalentLinearCalculator(max_iterations=r.choice([2, 8]))])()
            _, raised = call(lambda: c(m, p, p.location("outcrop", index=-1)))
            tr.ev("calcd", raised=raised)
        elif op == "strain":
            _, raised = call(lambda: setattr(r.choice(p), "strain", logu(r, 1e-5, 1e-2)))
            tr.ev("calcd", raised=raised)
        else:
            _, raised = call(p.reset_layers)
            tr.ev("reset", raised=raised)


def quarter(case):
    p, given = column()
    tr.ev("profile", raised="", ls=cols(p, given))
    meth = r.choice(["standard", "standard", "ba23"]) if len(p) > 1 else "standard"
    kappa = r.choice([None, None, 0.02, 0.04, 0.001])
    tr.ev("calc", raised="", method=meth, kappa=F(kappa))
    kw = {} if meth == "standard" and r.random() < 0.5 else {"method": meth}
    if kappa is not None or r.random() < 0.5:
        kw["site_atten"] = kappa
    calc = propagation.QuarterWaveLenCalculator(**kw)
    bot = 1 / (4 * sum(t / v for t, v in given[:-1])) if len(p) > 1 else 1
    for k in range(r.randint(1, 3)):
        if k and r.random() < 0.4:          # the profile is changed in place
            def change():
                nonlocal p
                if r.random() < 0.3:        # or another one, which differs in its densities
                    p = site.Profile([site.Layer(soil(r, "lin"), la.thickness, la.initial_shear_vel) for la in p], p.wt_depth)
                    return
                la = r.choice(list(p[:-1]) or [p[-1]])
                if len(p) > 1 and r.random() < 0.5:
                    la.thickness = la.thickness * r.uniform(0.5, 2)
                else:
                    la.initial_shear_vel = la.initial_shear_vel * r.uniform(0.7, 1.4)
            _, raised = call(change)
            given = [(la.thickness, la.initial_shear_vel) for la in p]
            tr.ev("profile", raised=raised, ls=cols(p, given))
        if not k or r.random() < 0.5:
            f = sorted(logu(r, max(0.1, 0.1 * bot), max(30, 2 * bot)) for _ in range(r.randint(1, 6)))
            if r.random() < 0.2:
                f = f[::-1]
            m = motion.Motion(freqs=np.array(f))
        lin = p.location("outcrop", index=-1)
        if k and r.random() < 0.4:          # the profile was used by another calculation
            call(lambda: propagation.EquivalentLinearCalculator(max_iterations=3)(ts_motion(r, npts=32, amp=0.3), p, lin))
        kw = {"reset_layers": False} if r.random() < 0.3 else {}
        v, raised = call(lambda: (calc(m, p, lin, **kw), FS(calc.crustal_amp), FS(calc.site_term)))
        tr.ev("qwl", raised=raised, f=FS(f), amp=v[1] if v else [], site=v[2] if v else [])
        if raised:
            return
        if k == 0 and r.random() < 0.35 and len(p) > 1 and all(100 <= v <= 4000 for _, v in given):
            typ = r.choice(["crustal_amp", "site_term"])
            thick, source = r.random() < 0.5, r.random() < 0.3
            atten = kappa is not None and r.random() < 0.5
            far = r.choice([(0.7, 1.4), (0.7, 1.4), (2.5, 3), (0.2, 0.4)])
            target = [float(x) * r.uniform(*far) for x in (calc.crustal_amp if typ == "crustal_amp" else calc.site_term)]
            old, oldwt = cols(p, given), p.wt_depth
            _, raised = call(lambda: calc.fit(typ, np.array(target), adjust_thickness=thick, adjust_source_vel=source, adjust_site_atten=atten), secs=60)
            if not raised:
                v, raised = call(lambda: (calc.profile, FS(calc.crustal_amp), FS(calc.site_term), F(calc.site_atten)))
            kept = cols(p, [(la.thickness, la.initial_shear_vel) for la in p]) == old and oldwt == p.wt_depth
            d = {} if raised else dict(ls=cols(v[0], [(la.thickness, la.initial_shear_vel) for la in v[0]]), wt=F(v[0].wt_depth), amp=v[1], site=v[2], kappa=v[3])
            tr.ev("fit", raised=raised, f=FS(f), type=typ, thick=thick, source=source, atten=atten, target=FS(target), old=old, oldwt=F(oldwt), kept=kept, **d)
            return


for case in range(n(120, 1200) if QWL else n(150, 1500)):
    tr.new(case)
    (quarter if QWL else averages)(case)
tr.close()
