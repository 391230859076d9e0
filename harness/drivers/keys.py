"""C28: soil types and layers compared, hashed and used as keys of sets and dictionaries."""
import copy

from obs import Ids, soil
from pystrata import site
from rec import F, FS, Trace, call, histories, n, rng

tr = Trace()
r = rng("keys")


def curve_rec(ids, c):
    if isinstance(c, site.NonlinearCurve):
        return {"id": ids(c), "x": FS(c.strains), "y": FS(c.values)}
    return {"id": 0, "x": [], "y": [] if c is None else [F(c)]}


def soil_of(ids, s):
    return {"what": "soil", "id": ids(s), "kind": type(s).__name__, "name": str(s.name), "uw": F(s.unit_wt), "mr": curve_rec(ids, s.mod_reduc), "dd": curve_rec(ids, s.damping)}


def rec(ids, o):
    if isinstance(o, site.SoilType):
        return soil_of(ids, o)
    return {"what": "layer", "id": ids(o), "soil": soil_of(ids, o.soil_type), "th": F(o.thickness), "vel": F(o.initial_shear_vel)}


def soils():
    out = []
    for _ in range(r.randint(2, 4)):
        # (two models built alike would be equal or not: at most one of them)
        s = soil(r, kind=r.choice(["lin", "lin", "nl", "nlmod", "nldamp"]) if any(isinstance(x, site.DarendeliSoilType) for x in out) else None, name=r.choice(["sand", "clay"]), uw=r.choice([18.0, 20.0]))
        out.append(s)
        k = r.random()
        if k < 0.3:
            out.append(copy.copy(s))
        elif k < 0.5:
            out.append(s.copy())
        elif k < 0.65:
            t = copy.copy(s)
            t.name = s.name + "2"
            out.append(t)
        elif k < 0.8 and not s.is_nonlinear:
            out.append(site.SoilType(s.name, s.unit_wt, None, r.choice([s.damping, s.damping * 1.5])))
    return out


def layers(ss):
    return [site.Layer(r.choice(ss), r.choice([2.0, 5.0]), r.choice([200.0, 300.0]), r.choice([None, 0.01, 0.0])) for _ in range(r.choice([r.randint(2, 6)] * 20 + [14]))]


def generated(hs):
    """Every history of the generating model; afterwards everything is looked up and compared."""
    for case, h in enumerate(hs):
        tr.new(case)
        ids = Ids()
        nl = soil(r, "nl", name="b", uw=20.0)
        make = {"a": lambda: site.SoilType("a", 18.0, None, 0.02), "b": lambda: nl}      # equal soils, or the same
        objs = [site.Layer(make[s](), 1.0, 200.0) for s in h[0]["soils"]]
        d = {}
        tr.ev("objs", raised="", objs=[rec(ids, o) for o in objs])
        for o in h[1:]:
            i, op = o["i"], o["op"]
            a = objs[i - 1]
            if op == "put":
                _, raised = call(d.__setitem__, a, o["v"])
                tr.ev("put", i=i, v=o["v"], raised=raised, size=len(d))
            elif op == "drop":
                v, raised = call(lambda: dict(was=d.pop(a, None) is not None))
                tr.ev("drop", i=i, raised=raised, size=len(d), **(v or {}))
            else:
                _, raised = call(setattr, a, *(("initial_shear_vel", 100.0 + 100 * o["th"]) if op == "thick" else ("strain", [1e-6, 1e-3][o["eps"]])))
                tr.ev("change", key=op == "thick", raised=raised, objs=[rec(ids, o) for o in objs])
        for i, a in enumerate(objs):
            v, raised = call(lambda: dict(got=[d[a]] if a in d else [], member=a in d.keys()))
            tr.ev("get", i=i + 1, raised=raised, **(v or {}))
            j = (i + 1) % 3
            b = objs[j]
            v, raised = call(lambda: dict(eq=bool(a == b), qe=bool(b == a), ne=bool(a != b), hi=str(hash(a)), hj=str(hash(b))))
            tr.ev("pair", i=i + 1, j=j + 1, raised=raised, **(v or {}))


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(120, 1500)):
    tr.new(case)
    ids = Ids()
    ss = soils()
    ls = layers(ss)
    ls += [la.copy() for la in ls if r.random() < 0.4]
    p = None
    if r.random() < 0.6:
        m = r.randint(1, len(ls))
        p = site.Profile(ls[:m] + [site.Layer(r.choice(ss), 0, 800.0)])
        ls.append(p[-1])
    other = r.choice(ss)
    objs = ss + ls
    pos = {id(o): i + 1 for i, o in enumerate(objs)}
    what = list(range(1, len(objs) + 1))
    tr.ev("objs", raised="", objs=[rec(ids, o) for o in objs])
    d, junk = {}, []
    for _ in range(r.randint(8, 25)):
        i, j = r.choice(what), r.choice(what)
        a, b = objs[i - 1], objs[j - 1]
        junk.append({}.values() if r.random() < 0.3 else [0] * r.randint(1, 30))
        op = r.choice(["pair"] * 5 + ["put", "put", "get", "get", "get", "drop", "unique", "strain", "dmin", "reset"] + ["index", "index", "types"] * (p is not None) + ["edit"])
        if op == "pair":
            v, raised = call(lambda: dict(eq=bool(a == b), qe=bool(b == a), ne=bool(a != b), hi=str(hash(a)), hj=str(hash(b))))
            tr.ev("pair", i=i, j=j, raised=raised, **(v or {}))
        elif op == "put":
            val = r.randint(1, 99)
            _, raised = call(d.__setitem__, a, val)
            tr.ev("put", i=i, v=val, raised=raised, size=len(d))
        elif op == "get":
            v, raised = call(lambda: dict(got=[d[a]] if a in d else [], member=a in d.keys()))
            tr.ev("get", i=i, raised=raised, **(v or {}))
        elif op == "drop":
            v, raised = call(lambda: dict(was=d.pop(a, None) is not None))
            tr.ev("drop", i=i, raised=raised, size=len(d), **(v or {}))
        elif op == "unique":
            some = [r.choice(what) for _ in range(r.randint(1, 8))]
            v, raised = call(lambda: len({objs[k - 1] for k in some}))
            tr.ev("unique", ids=some, raised=raised, size=v)
        elif op == "index":
            b = r.choice(ls)
            member, raised2 = call(lambda: b in p)
            at, raised = call(p.index, b)
            tr.ev("index", ids=[pos[id(la)] for la in p], i=pos[id(b)], raised=raised2 or raised, member=bool(member), at=-1 if at is None else int(at))
        elif op == "types":
            v, raised = call(lambda: [ids(s) for s in p.iter_soil_types()])
            tr.ev("types", ids=[pos[id(la)] for la in p], raised=raised, got=v)
        else:
            la = r.choice(ls)
            key = op == "edit"
            if key and (d or p is not None):
                continue
            if op == "strain":
                _, raised = call(setattr, la, "strain", r.choice([1e-5, 1e-3]))
            elif op == "dmin":
                _, raised = call(setattr, la, "damping_min", r.choice([0.01, 0.03]))
            elif op == "reset":
                _, raised = call(la.reset)
            else:
                _, raised = call(setattr, la, "initial_shear_vel", r.choice([200.0, 300.0, 450.0]))
            tr.ev("change", key=key, raised=raised, objs=[rec(ids, o) for o in objs])
tr.close()
