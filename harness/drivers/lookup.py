"""C02: lookups by depth and index on profiles with a history of edits."""
from pystrata import output, site
from rec import F, Trace, call, histories, n, rng

tr = Trace()
r = rng("lookup")
WF = ["outcrop", "within", "incoming_only"]


def pos(p, la):
    for i, x in enumerate(p.layers):
        if x is la:
            return i + 1
    return 0


def soil(uw):
    return site.SoilType("s", uw, None, 0.02)


def thick(exact):
    return r.choice([0.5, 1, 2, 2, 4.25, 8]) if exact else r.choice([2.0, r.uniform(0.05, 40)])


def find(d):
    v, raised = call(p.lookup_depth, d)
    tr.ev("find", d=F(d), i=(int(v[0]) + 1) if not raised else 0, within=F(v[1]) if not raised else "nan", raised=raised)


def place(wf, byidx, d, k, viaout):
    arg = wf if r.random() < 0.5 else site.WaveField[wf]

    def go():
        kw = {"index": k} if byidx else {"depth": d}
        loc = output.OutputLocation(arg, **kw)(p) if viaout else p.location(arg, **kw)
        # vertical stress is defined down to the base of the layer
        ok = loc.depth_within <= loc.layer.thickness
        return (loc.index, pos(p, loc.layer), loc.depth_within, loc.wave_field.name, ok,
                loc.stress_vert() if ok else None, loc.stress_vert(effective=True) if ok else None)

    v, raised = call(go)
    v = v or (-1, 0, None, "", False, None, None)
    tr.ev("locindex" if byidx else "locdepth", given=k, d=F(d), wf=wf, li=int(v[0]) + 1, lpos=v[1], lw=F(v[2]), lwf=v[3],
          stressable=bool(v[4]), ltot=F(v[5]), leff=F(v[6]), raised=raised)


def generated(hs):
    """After every history of the generating model, every depth and index."""
    global p
    for case, h in enumerate(hs):
        tr.new(case)
        sts = {k: soil(15 + k) for k in (1, 2)}
        mk = lambda k: site.Layer(sts[k], 2 + 3 * k, 200 + 50 * k)      # noqa: E731
        ls = [mk(k) for k in h[0]["ks"]]
        p, raised = call(lambda: site.Profile(list(ls), 0))
        tr.ev("new", layers=[{"th": F(x.thickness), "uw": F(x.unit_wt)} for x in ls], wt="0", raised=raised)
        for o in h[1:]:
            if raised:
                break
            op, la, at = o["op"], mk(o.get("k", 1)), o.get("at", 0)
            if op == "strain":
                _, raised = call(lambda: [setattr(x, "strain", 1e-4) for x in p])
                continue
            to = at if op == "thick" else (max(0, len(p) + at) if at < 0 else min(at, len(p))) + 1
            _, raised = call({"append": lambda: p.append(la), "insert": lambda: p.insert(at, la),
                              "thick": lambda: setattr(p[at - 1], "thickness", o["th"]), "wt": lambda: setattr(p, "wt_depth", o["wt"])}[op])
            tr.ev(op, th=F(o.get("th", la.thickness)), uw=F(la.unit_wt), at=to, wt=F(o.get("wt", 0)), raised=raised)
        if raised:
            continue
        for d in range(0, 26):
            find(d)
        for k in range(-len(p), len(p)):
            place("outcrop", True, 0, k, k % 2 == 0)
        for d in (0, 1, 5, 8, 13):
            place("within", False, d, 0, d == 5)


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(160, 1500)):
    tr.new(case)
    exact = r.random() < 0.5
    pool = [soil(18), soil(18), soil(20)]

    def layer(th=None):
        return site.Layer(r.choice(pool), thick(exact) if th is None else th, r.choice([200, 200, 500]))

    m = r.choice([r.randint(1, 6)] * 30 + [r.randint(11, 30)])
    ls = [layer() for _ in range(m)] + [layer(r.choice([0, 0, 2]))]
    if r.random() < 0.3:     # repeated identical layers, also identical to the half-space
        st = pool[0]
        ls = [site.Layer(st, 2, 200) for _ in range(m)] + [site.Layer(st, r.choice([0, 2]), 200)]
    wt = r.choice([0, 3, r.uniform(0, 40)])
    p, raised = call(lambda: site.Profile(list(ls), wt))
    tr.ev("new", layers=[{"th": F(x.thickness), "uw": F(x.unit_wt)} for x in ls], wt=F(wt), raised=raised)
    if raised:
        continue
    for _ in range(r.randint(0, 5)):
        op = r.choice(["append", "insert", "thick", "wt"])
        at = r.randrange(len(p))
        th = thick(exact)
        la = layer(th)
        wt = r.uniform(0, 30)
        _, raised = call({"append": lambda: p.append(la), "insert": lambda: p.insert(at, la),
                          "thick": lambda: setattr(p[at], "thickness", th), "wt": lambda: setattr(p, "wt_depth", wt)}[op])
        tr.ev(op, th=F(th), uw=F(la.unit_wt), at=at + 1, wt=F(wt), raised=raised)
        if raised:
            break
    if raised:
        continue
    total = sum(x.thickness for x in p[:-1])
    depths = [0, total, total + 10, total * (1 + 1e-6) + 1e-6] + [r.uniform(0, total * 1.2) for _ in range(4)]
    depths += [x.depth for x in p] + [x.depth_base for x in p[:-1]] + [x.depth_mid for x in p]
    depths += [max(0, x.depth - 1e-6) for x in p] + [x.depth + 1e-6 for x in p]
    for d in r.sample(depths, min(len(depths), 12)):
        find(d)
    for _ in range(12):
        place(r.choice(WF), r.random() < 0.5, r.choice(depths), r.randrange(-len(p), len(p)), r.random() < 0.4)
    # places that are named twice, not at all, or beyond the layers
    what, kw = r.choice([("both", {"depth": r.choice(depths), "index": r.randrange(-len(p), len(p))}), ("neither", {}),
                         ("beyond", {"index": r.choice([len(p), -len(p) - 1, len(p) + 3])})])
    wf = r.choice(WF)
    _, raised = call(lambda: output.OutputLocation(wf, **kw)(p) if r.random() < 0.4 else p.location(wf, **kw))
    tr.ev("refuse", what=what, raised=raised)
tr.close()
