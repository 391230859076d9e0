"""C03: copy / auto_discretize, interleaved with edits and calculations on source and result."""
from obs import Ids, profile, profile_obs, soil, ts_motion
from pystrata import propagation, site
from rec import F, Trace, call, histories, n, rng

tr = Trace()
r = rng("copies")


def step(ev, fn, **kw):
    v, raised = call(fn)
    obs = []
    if not raised:
        obs, raised = call(lambda: [profile_obs(ids, p) for p in ps])
    tr.ev(ev, raised=raised, obs=obs or [], **kw)
    return not raised


def generated(hs):
    """Every history of the generating model; a beginning already seen is replayed but only its end observed."""
    global ids, ps
    mot = ts_motion(r, amp=0.3)
    starts = {1: (("nl", 4), ("lin", 2), ("lin", 0)), 2: (("lin", 2), ("lin", 2), ("dar", 6), ("lin", 0))}
    pools = {s: [soil(r, k) for k, _ in x] for s, x in starts.items()}
    opts = {True: (30.0, 0.2), False: (25.0, 1 / 3)}
    seen = set()
    for case, h in enumerate(hs):
        ids, ps = Ids(), []
        tr.new(case)
        fns = []
        for o in h:
            k = o.get("k", 1) - 1
            at = {"top": 0, "deep": -2, "half": -1}[o.get("at", "top")]
            x, kw = o.get("x", 0), {}
            op = o["op"]
            if op == "make":
                def fn(s=o["start"]):
                    ps.append(site.Profile([site.Layer(st, th, v) for st, (_, th), v in
                                            zip(pools[s], starts[s], (150, 250, 200, 900) if len(pools[s]) == 4 else (150, 250, 900))], 1))
                kw = {"first": True}
            elif op == "copy":
                fn = lambda k=k: ps.append(ps[k].copy())                         # noqa: E731
            elif op == "disc":
                mf, fr = opts[o["nlonly"]]
                kw = {"maxf": F(mf), "frac": F(fr), "nlonly": o["nlonly"]}
                fn = lambda k=k, mf=mf, fr=fr, b=o["nlonly"]: ps.append(ps[k].auto_discretize(max_freq=mf, wave_frac=fr, nonlinear_only=b))   # noqa: E731
            elif op == "calc":
                fn = lambda k=k: propagation.EquivalentLinearCalculator(strain_limit=None)(mot, ps[k], ps[k].location("outcrop", index=-1))    # noqa: E731
            elif op == "thick":
                fn = lambda k=k, at=at, x=x: setattr(ps[k][at], "thickness", x)  # noqa: E731
            elif op == "append":
                fn = lambda k=k: ps[k].append(site.Layer(ps[k][0].soil_type, 3.0, 300.0))   # noqa: E731
            else:
                name, x = {"vel": ("initial_shear_vel", 333.0), "dmin": ("damping_min", 0.031), "wt": ("wt_depth", 4.5)}[op]
                fn = lambda k=k, at=at, x=x, name=name, op=op: setattr(ps[k] if op == "wt" else ps[k][at], name, x)   # noqa: E731
            fns.append((op, fn, {"k": k + 1, "at": at, "x": F(x), **kw}))
        quiet = 0         # how much of the beginning has been looked at in another history
        while quiet + 1 < len(h) and repr(h[:quiet + 1]) in seen:
            quiet += 1
        for i in range(len(h)):
            seen.add(repr(h[:i + 1]))
        ok = True
        if quiet:
            def begin():
                for _, fn, _ in fns[:quiet]:
                    fn()
            ok = step("make", begin, first=True, k=0)
        for op, fn, kw in fns[quiet:]:
            if ok:
                if kw["k"] <= len(ps):
                    kw["at"] = kw["at"] % len(ps[kw["k"] - 1]) + 1
                ok = step(op, fn, **kw)


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(120, 1000)):
    tr.new(case)
    ids = Ids()
    ps = []
    mot = ts_motion(r, amp=r.choice([0.01, 0.1, 0.3]))

    def make():
        if r.random() < 0.3:      # exactly representable: interfaces of the discretisation are exact
            ls = [site.Layer(soil(r, k), r.choice([1, 2, 3, 4, 6, 8]), r.choice([128, 256, 512]), r.choice([None, 0.0])) for k in r.choices(["lin", "nl", "nlmod"], k=r.randint(1, 3))]
            ls.append(site.Layer(soil(r, "lin"), r.choice([0, 2]), 1024, r.choice([None, 0.0])))
            p = site.Profile(ls, 2)
        else:
            p = profile(r)
        if r.random() < 0.3:      # repeated layers
            p.insert(0, site.Layer(p[0].soil_type, p[0].thickness, p[0].initial_shear_vel))
        ps.append(p)

    if not step("make", make, first=True, k=0):
        continue
    for _ in range(r.randint(3, 8)):
        k = r.randrange(len(ps))
        p = ps[k]
        op = r.choice(["copy", "disc", "disc", "calc", "calc", "thick", "vel", "dmin", "wt", "append"])
        if op in ("copy", "disc") and len(ps) >= 4:
            op = "thick"
        at = r.randrange(len(p))
        x = 0
        kw = {}
        if op == "copy":
            fn = lambda: ps.append(p.copy())                                     # noqa: E731
        elif op == "disc":
            mf, fr, nl = r.choice([(32, 0.25, True), (50, 0.2, True), (50, 0.2, False), (25, 1 / 3, True), (16, 0.25, False)])
            kw = {"maxf": F(mf), "frac": F(fr), "nlonly": nl}
            if (mf, fr, nl) == (50, 0.2, True) and r.random() < 0.5:
                fn = lambda: ps.append(p.auto_discretize())                      # noqa: E731
            else:
                fn = lambda: ps.append(p.auto_discretize(max_freq=mf, wave_frac=fr, nonlinear_only=nl))   # noqa: E731
        elif op == "calc":
            c = r.choice([propagation.LinearElasticCalculator(), propagation.EquivalentLinearCalculator(strain_limit=None)])
            fn = lambda: c(mot, p, p.location("outcrop", index=-1))              # noqa: E731
        elif op == "thick":
            x = r.choice([1.0, 2.0, r.uniform(0.5, 20)])
            fn = lambda: setattr(p[at], "thickness", x)                          # noqa: E731
        elif op == "vel":
            x = r.uniform(100, 900)
            fn = lambda: setattr(p[at], "initial_shear_vel", x)                  # noqa: E731
        elif op == "dmin":
            x = r.uniform(0.002, 0.05)
            fn = lambda: setattr(p[at], "damping_min", x)                        # noqa: E731
        elif op == "wt":
            x = r.uniform(0, 30)
            fn = lambda: setattr(p, "wt_depth", x)                               # noqa: E731
        else:
            fn = lambda: p.append(site.Layer(p[0].soil_type, 3.0, 300.0))        # noqa: E731
        if not step(op, fn, k=k + 1, at=at + 1, x=F(x), **kw):
            break
tr.close()
