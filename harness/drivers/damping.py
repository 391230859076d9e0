"""C23: site attenuation, scattering and sequences of damping adjustments, in place or on copies."""
import re

import numpy as np
from obs import profile, soil, st_content, ts_motion
from pystrata import propagation, site, tools
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("damping")


def cols(p):
    return [{"th": F(la.thickness), "v": F(la.initial_shear_vel), "rho": F(la.soil_type.unit_wt / 9.80665), "cur": F(np.mean(la.shear_vel)),
             "dmin": F(la.damping_min), "st": st_content(la.soil_type), "D": FS(la.damping)} for la in p]


def column():
    names = ["sand", "clay", "fill", "till"]
    k = r.random()
    hs = site.Layer(soil(r, "lin", "bedrock", uw=24.0), r.choice([0, 0, 0, 10]), r.choice([760.0, 1500.0, 3000.0]), r.choice([None, 0.005, 0.0]))
    if k < 0.3:
        return profile(r, kinds=["lin", "nl", "nl", "dar"], nmax=4)
    ls = []
    for _ in range(r.randint(1, 5)):
        st = soil(r, r.choice(["lin", "nl", "nl", "nldamp"]), r.choice(names))
        ls.append(site.Layer(st, r.choice([2, 5.0, r.uniform(1, 40)]), r.choice([300, r.uniform(150, 700)]), r.choice([None, 0.015, 0.0])))
    if k < 0.5:
        for la, v in zip(ls, sorted(la.initial_shear_vel for la in ls)):
            la.initial_shear_vel = v
    return site.Profile(ls + [hs], r.choice([0, 5]))


def rule(p):
    """(exclude argument, excluded layers)"""
    k = r.choice(["none", "name", "prefix", "list", "call", "call", "most", "all"])
    nm = [la.soil_type.name for la in p]
    if k == "none":
        return None, [False] * len(p)
    if k == "name":
        x = r.choice(nm + ["bedrock"])
        return x, [re.match(x, s) is not None for s in nm]
    if k == "prefix":
        x = r.choice(["[sc]", "fi|ti", "b", ".*l", "x"])
        return x, [re.match(x, s) is not None for s in nm]
    if k == "list":
        x = r.sample(["sand", "clay", "fill", "till", "rock", "bedrock"], r.randint(1, 3))
        if "rock" in x and "bedrock" in nm:
            x.remove("rock")
        return x, [s in x for s in nm]
    if k == "all":
        x = lambda la: True      # noqa: E731
        return x, [True] * len(p)
    if k == "most":                         # all but the half-space, or all but one
        i = r.choice([len(p) - 1, r.randrange(len(p))])
        d = p[i].depth
        return (lambda la: la.depth != d), [la.depth != d for la in p]
    pick = [r.random() < 0.4 for _ in p]
    ds = {la.depth for la, x in zip(p, pick) if x}
    if r.random() < 0.3:
        v = r.uniform(200, 600)
        return (lambda la: la.initial_shear_vel > v), [la.initial_shear_vel > v for la in p]
    return (lambda la: la.depth in ds), [la.depth in ds for la in p]


for case in range(n(90, 800)):
    tr.new(case)
    p = column()
    tr.ev("profile", raised="", ls=cols(p))
    op = ""
    for _ in range(r.randint(2, 5)):
        op = "scatter" if op == "calc" and r.random() < 0.5 else r.choice(["atten", "scatter", "adjust", "adjust", "adjust", "calc", "calc"])
        if op == "atten":
            v, raised = call(lambda: (F(p.site_attenuation()), FS([la.incr_site_atten for la in p])))
            tr.ev(op, raised=raised, v=v[0] if v else "nan", each=v[1] if v else [], ls=cols(p))
        elif op == "scatter":
            b = cols(p)
            fs = r.choice([None, [60, 100, 150, 180], [float(x) for x in np.linspace(50, 200, 16)], np.linspace(20, 80, 7)])
            v, raised = call(lambda: tools.calc_atten_scatter(p) if fs is None else tools.calc_atten_scatter(p, fs))
            tr.ev(op, raised=raised, v=F(v), fs=[] if fs is None else FS(fs), ls=b, kept=cols(p) == b)
        elif op == "calc":
            c = propagation.EquivalentLinearCalculator(max_iterations=3)
            call(lambda: c(ts_motion(r, npts=32, amp=r.choice([0.1, 0.5])), p, p.location("outcrop", index=-1)))
            tr.ev(op, raised="")
        else:
            x, out = rule(p)
            target = r.choice([0.04, 0.02, 0.001, logu(r, 1e-4, 0.1), p.site_attenuation() * r.uniform(0.3, 2)])
            inplace = r.random() < 0.4
            b, wt = cols(p), p.wt_depth
            v, raised = call(lambda: tools.adjust_damping_values(p, target, x, inplace) if x is not None or r.random() < 0.5 else tools.adjust_damping_values(p, target, inplace=inplace))
            d = dict(before=b, given=cols(p), oldwt=F(wt), out=[bool(k) for k in out], target=F(target), inplace=inplace)
            if not raised:
                q, s = v
                v, raised = call(lambda: dict(after=cols(q), wt=F(q.wt_depth), scatter=F(s), same=q is p, apart=not any(a is c for a in p for c in q), atten=F(q.site_attenuation())))
                d.update(v or {})
            tr.ev("adjust", raised=raised, **d)
            if not raised and r.random() < 0.4 and not inplace:
                p = q
                tr.ev("profile", raised="", ls=cols(p))
tr.close()
