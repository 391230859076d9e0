"""C12: outputs and collections receiving results of differing lengths, and resets, in any order."""
import numpy as np
from obs import profile, soil, ts_motion
from outs import columns, factories, out_obs
from pystrata import motion, output, propagation, site
from rec import FS, Trace, call, histories, logu, n, rng

tr = Trace()
r = rng("outs12")


def mk_calc(linear):
    p = profile(r, nmax=4)
    k = r.choice(["ts", "ts", "ts", "rvt"])
    if k == "ts":
        m = ts_motion(r, npts=r.choice([16, 20, 9, 33]), dt=r.choice([0.01, 0.02]))
    else:
        fr = np.geomspace(0.2, 30, 12)
        m = motion.RvtMotion(fr, 0.02 * fr / (1 + (fr / 8) ** 2), duration=8.0)
    c = r.choice([propagation.LinearElasticCalculator(), propagation.EquivalentLinearCalculator(strain_limit=None)][0 if linear else 1:])
    c(m, p, p.location("outcrop", index=-1))
    return c, k, p


def series(npts, dt, depths):
    p = site.Profile([site.Layer(soil(r, "nl"), th, 200.0 + 50 * i) for i, th in enumerate(depths)] + [site.Layer(soil(r, "lin"), 0, 900.0)], 2)
    c = propagation.EquivalentLinearCalculator(strain_limit=None)
    c(ts_motion(r, npts=npts, dt=dt), p, p.location("outcrop", index=-1))
    return c


def generated(hs):
    """Every history of the generating model, with every kind of output in turn."""
    calcs = {1: series(9, 0.02, [3, 4]), 2: series(20, 0.01, [2, 3, 4])}
    fac = factories([0.5, 3.0], 2.5)
    free = sorted(k for k in fac if not fac[k][2])
    fixed = sorted(k for k in fac if fac[k][2])
    cols, seen = {}, set()
    for case, h in enumerate(hs):
        tr.new(case)
        kinds = [free[case % len(free)], fixed[case % len(fixed)]]
        outs = [fac[k][0]() for k in kinds]
        coll = output.OutputCollection(outs)
        for i, o in enumerate(h):
            quiet = len(h) > i + 1 and repr(h[:i + 1]) in seen       # this beginning has been looked at in another history
            seen.add(repr(h[:i + 1]))
            op, name, k = o["op"], o.get("name", "None"), o.get("k", 1)
            kw = {"k": k}
            if op == "make":
                _, raised = call(lambda: None)
                kw = {"kinds": kinds, "fixed": [False, True], "refs": [[], columns([0.5, 3.0])], "size": len(coll), "same": all(a is b for a, b in zip(coll, outs))}
            elif op in ("add", "addall"):
                c, which = calcs[o["calc"]], [k] if op == "add" else [1, 2]
                kw = {"name": name, "cols": []}
                for w in which:
                    key = (o["calc"], kinds[w - 1])
                    if key not in cols:
                        f = fac[kinds[w - 1]][0]()
                        _, raised = call(f, c)
                        cols[key] = {"raised": raised, "refs": FS(f.refs) if not raised else [], "vals": FS(f.values) if not raised else []}
                    if cols[key]["raised"]:
                        tr.ev("fresh", raised=cols[key]["raised"], k=w)
                    kw["cols"].append({"k": w, "refs": cols[key]["refs"], "vals": cols[key]["vals"]})
                f = outs[k - 1] if op == "add" else coll
                _, raised = call(lambda: f(c) if name == "None" else f(c, name))
            else:
                _, raised = call((lambda: outs[k - 1].reset()) if op == "reset" else coll.reset)
            obs, r2 = ([], "") if quiet or raised else call(lambda: [out_obs(x) for x in outs])
            tr.ev(op, raised=raised or r2, obs=obs or [], **kw)


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(90, 900)):
    tr.new(case)
    fac = factories([1.0], 1.0)
    kinds = r.sample(sorted(fac), r.randint(2, 5)) if r.random() < 0.8 else r.choices(sorted(fac), k=r.randint(2, 3))
    # a linear-elastic calculation has no maximum strains
    calcs = [mk_calc(not {"maxstrain", "csr"} & set(kinds)) for _ in range(r.randint(2, 4))]
    top = min(p[-1].depth for _, _, p in calcs)
    freqs = sorted(logu(r, 0.3, 20) for _ in range(r.choice([1, 3, 7])))
    at = r.choice([0.3, 0.8]) * top
    fac = factories(freqs, at)
    shared = factories(freqs, at, r.random() < 0.5)
    outs = [shared[k][0]() for k in kinds]
    coll = output.OutputCollection(outs)
    obs = lambda: [out_obs(o) for o in outs]      # noqa: E731
    v, raised = call(obs)
    tr.ev("make", raised=raised, kinds=kinds, fixed=[fac[k][2] for k in kinds], refs=[columns(freqs) if fac[k][2] else [] for k in kinds],
          obs=v or [], size=len(coll), same=all(a is b for a, b in zip(coll, outs)) and all(coll[k] is o and o in coll for k, o in enumerate(outs))
          and fac[kinds[0]][0]() not in coll)
    for step in range(r.choice([r.randint(3, 9)] * 15 + [16])):
        op = r.choice(["add"] * 7 + ["addall"] * 3 + ["reset", "resetall"])
        c, mk, p = r.choice(calcs)
        j = r.randrange(len(outs))
        name = r.choice([None, None, None, f"n{step}", ("a", step), 0, ""])
        if r.random() < 0.2:      # the calculation is made again with a changed profile
            def change():
                la = r.choice(list(p))
                if la.thickness and r.random() < 0.6:
                    la.thickness = la.thickness * 1.25
                else:
                    la.initial_shear_vel = la.initial_shear_vel * 1.2
                c(c.motion, p, p.location("outcrop", index=-1))
            _, raised = call(change)
            if raised:
                tr.ev("fresh", raised=raised, k=j + 1)
                continue
        if op in ("add", "addall"):
            which = [j] if op == "add" else list(range(len(outs)))
            if op == "addall" and mk != "ts" and any(fac[k][1] for k in kinds):
                continue
            if mk != "ts" and fac[kinds[j]][1] and op == "add":
                _, raised = call(lambda: outs[j](c, name))
                tr.ev("refused", k=j + 1, raised=raised, obs=obs())
                continue

            def fresh():
                res = []
                for i in which:
                    o = fac[kinds[i]][0]()
                    o(c)
                    res.append({"k": i + 1, "refs": FS(o.refs), "vals": FS(o.values)})
                return res

            cols, raised = call(fresh)
            if raised:
                tr.ev("fresh", raised=raised, k=j + 1)
                continue
            if op == "add":
                _, raised = call(lambda: outs[j](c, name) if name is not None else outs[j](c))
            else:
                _, raised = call(lambda: coll(c, name) if name is not None else coll(c))
            tr.ev(op, raised=raised, name=str(name), cols=cols, obs=obs())
        else:
            _, raised = call((lambda: outs[j].reset()) if op == "reset" else coll.reset)
            tr.ev(op, raised=raised, k=j + 1, obs=obs())
tr.close()
