"""C01: histories of public edits of a Profile, with what it reports after each."""
import numpy as np
import pandas as pd
from pystrata import site
from obs import Ids
from rec import F, FS, Trace, call, histories, n, rng

tr = Trace()
r = rng("profile")


def soil(uw, kind):
    if kind == 0:
        return site.SoilType("a", uw, None, 0.02)
    if kind == 1:
        return site.SoilType("b", uw, site.ModulusReductionCurve("", [1e-5, 1e-3], [1, 0.3]), site.DampingCurve("", [1e-5, 1e-3], [0.01, 0.1]))
    return site.DarendeliSoilType(uw, plas_index=10)


def thick(r):
    return r.choice([0.5, 1, 2, 2, 5, 5.0, 10, round(r.uniform(0.1, 30), 3), r.uniform(0.01, 200)])


def weight(r):
    return r.choice([16, 18, 18.0, 20, round(r.uniform(12, 26), 2)])


def observe(p):
    q = []
    for i, la in enumerate(p):
        for f in (0.5, 1) if gen else (0, 0.5, 1, r.random()):
            w = la.thickness * f
            k0 = r.choice([0.5, 0.5, 1.0, 0.3])
            d = {"i": i + 1, "w": F(w), "k0": F(k0)}
            v, raised = call(lambda: (la.stress_vert(w), la.stress_vert(w, effective=True), la.stress_mean(w, k0=k0),
                                      la.stress_mean(w, effective=True, k0=k0), p.pore_pressure(la.depth + w)))
            v = v or (None,) * 5
            d.update(tot=F(v[0]), eff=F(v[1]), mean=F(v[2]), meaneff=F(v[3]), pp=F(v[4]), raised=raised)
            q.append(d)
    return {
        "depth": [F(x.depth) for x in p], "thick": [F(x.thickness) for x in p], "base": [F(x.depth_base) for x in p],
        "mid": [F(x.depth_mid) for x in p], "uw": [F(x.unit_wt) for x in p], "density": [F(x.density) for x in p],
        "vs": FS([x.shear_vel for x in p]), "sts": [ids(x.soil_type) for x in p], "types": [ids(x) for x in p.iter_soil_types()],
        "frame": {k: FS(p.to_dataframe()[k]) for k in ("unit_wt", "thickness", "shear_vel", "depth")},
        "count": len(p), "index": [p.index(x) + 1 for x in p],
        "sv": [F(x.stress_vert()) for x in p], "pdepth": FS(p.depth), "pthick": FS(p.thickness), "pmid": FS(p.depth_mid),
        "q": q,
    }


def step(ev, fn, **kw):
    _, raised = call(fn)
    obs, r2 = ({}, "") if raised or quiet else call(observe, p)
    tr.ev(ev, raised=raised or r2, obs=obs or {}, **kw)
    return not (raised or r2)


def strained():
    for x in p:
        x.strain = 1e-4


gen = histories()
quiet, seen = False, set()
for case, h in enumerate(gen or []):      # every history of the generating model
    tr.new(case)
    ids = Ids()
    sts = {k: soil(15 + k, k % 2) for k in range(1, 6)}
    mk = {k: (lambda k=k: site.Layer(sts[k], 2 + 3 * k, 200 + 50 * k)) for k in sts}
    for at, o in enumerate(h):
        k = o.get("k")
        quiet = repr(h[:at + 1]) in seen      # the same beginning has been looked at in another history
        seen.add(repr(h[:at + 1]))
        if o["op"] == "new":
            ls = [mk[x]() for x in o["ks"]]

            def construct():
                global p
                p = site.Profile(ls)
            ok = step("new", construct, layers=[{"th": F(x.thickness), "uw": F(x.unit_wt)} for x in ls], wt="0")
        elif o["op"] == "append":
            ok = step("append", lambda: p.append(mk[k]()), th=F(2 + 3 * k), uw=F(15 + k))
        elif o["op"] == "insert":
            ok = step("insert", lambda: p.insert(o["at"], mk[k]()), th=F(2 + 3 * k), uw=F(15 + k), at=o["at"])
        elif o["op"] == "thick":
            ok = step("thick", lambda: setattr(p[o["at"] - 1], "thickness", o["th"]), th=F(o["th"]), at=o["at"])
        elif o["op"] == "wt":
            ok = step("wt", lambda: setattr(p, "wt_depth", o["wt"]), wt=F(o["wt"]))
        else:
            ok = step("strain", strained)
        if not ok:
            break

quiet = False
for case in range(0 if gen else n(140, 1200)):
    tr.new(case)
    ids = Ids()
    pool = []          # equal-valued soil types and layers are common in practice

    def layer(half=False):
        uw = weight(r)
        if pool and r.random() < 0.5:
            st = r.choice(pool)
        else:
            st = soil(uw, r.choice([0, 0, 1, 2]))
            pool.append(st)
        th = 0 if half and r.random() < 0.7 else thick(r)
        return site.Layer(st, th, r.choice([200, 300, 300, r.uniform(80, 2500)]), r.choice([None, 0.01, 0.0]))

    m = r.choice([r.randint(1, 6)] * 30 + [r.randint(11, 30)])
    if r.random() < 0.25:
        # deliberately repeat a layer
        base = layer()
        ls = [site.Layer(base.soil_type, base.thickness, base.initial_shear_vel) for _ in range(m)] + [layer()]
        if r.random() < 0.5:
            ls.append(site.Layer(base.soil_type, base.thickness, base.initial_shear_vel))
    else:
        ls = [layer() for _ in range(m)] + [layer(True)]
    wt = r.choice([0, 0, 2, 5, 1e3, r.uniform(0, 60)])
    args = [{"th": F(x.thickness), "uw": F(x.unit_wt)} for x in ls]
    how = r.random()
    p = None

    def construct():
        global p
        if how < 0.15:
            df = pd.DataFrame([{"thickness": x.thickness, "vel_shear": x.initial_shear_vel, "unit_wt": x.unit_wt, "damping": 0.01}
                               for x in ls])
            p = site.Profile.from_dataframe(df, wt)
        else:
            p = site.Profile(ls, wt) if how < 0.6 else site.Profile(ls, wt_depth=wt)

    if not step("new", construct, layers=args, wt=F(wt)):
        continue
    for _ in range(r.randint(0, 9)):
        op = r.choice(["append", "insert", "insert", "thick", "thick", "thick", "wt", "strain", "lookup"])
        if op == "append":
            la = layer()
            ok = step(op, lambda: p.append(la), th=F(la.thickness), uw=F(la.unit_wt))
        elif op == "insert":
            la = layer()
            at = r.choice([r.randint(0, len(p)), r.randint(0, len(p)), r.randint(-len(p) - 1, len(p) + 1)])
            ok = step(op, lambda: p.insert(at, la), th=F(la.thickness), uw=F(la.unit_wt), at=at)
        elif op == "thick":
            at = r.randrange(len(p))
            th = thick(r)
            ok = step(op, lambda: setattr(p[at], "thickness", th), th=F(th), at=at + 1)
        elif op == "wt":
            wt = r.choice([0, 3, r.uniform(0, 60)])
            ok = step(op, lambda: setattr(p, "wt_depth", wt), wt=F(wt))
        elif op == "strain":
            ok = step(op, strained)
        else:
            ok = step(op, lambda: (p.lookup_depth(r.uniform(0, 50)), p.location("within", index=r.randrange(len(p)))))
        if not ok:
            break
tr.close()
