"""C17: values of simulated profiles: velocities, layerings, soil-type curves and percentiles."""
import numpy as np
from obs import DC, MR, profile, soil
from pystrata import site, variation
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("variates")
V = variation
case = 0


def start():
    global case
    case += 1
    tr.new(case)
    np.random.seed(r.randrange(2 ** 31))


# ---------------------------------------------------------------- velocities
def toro(rock):
    if r.random() < 0.4:
        cls = r.choice(sorted(V.ToroVelocityVariation.PARAMS))
        m = V.ToroVelocityVariation.generic_model(cls, vary_bedrock=rock)
    else:
        m = V.ToroVelocityVariation(r.uniform(0.05, 0.5), r.choice([0.0, 0.5, 0.99, r.random()]), r.uniform(2, 40), r.choice([0.3, 0.9, 1.0, r.random()]),
                                    r.choice([0.0, 5.0]), r.uniform(0.05, 0.8), vary_bedrock=rock)
    return m, [0], [m.ln_std], {}


def by_depth(rock):
    names = r.choice([None, {"clay": 0.4}, {"clay": 0.05, "sand": 0.5}, {"bedrock": 0.1}, {"fi": 0.3}])
    kw = {"vary_bedrock": rock, "ln_std_map": names}
    depths, stds = [0, 15], [0.25, 0.15]
    if r.random() < 0.6:
        depths = sorted([r.uniform(0, 60) for _ in range(r.randint(1, 4))])
        stds = [r.uniform(0.05, 0.5) for _ in depths]
        kw.update(depth=depths, ln_std=stds)
    return V.DepthDependToroVelVariation.generic_model(r.choice(["USGS A", "USGS C", "Geomatrix AB"]), **kw), depths, stds, names or {}


for c in range(n(16, 80)):
    start()
    rock = r.random() < 0.4
    if c % 4 == 0:       # deep sites, where the correlation between layers differs from one
        m = V.ToroVelocityVariation(r.uniform(0.1, 0.5), 0.99, r.choice([5.0, 40.0, 120.0]), r.choice([0.2, 0.4]), 0.0, r.choice([0.1, 0.5, 0.8]), vary_bedrock=True)
        rock, depths, stds, names = True, [0], [m.ln_std], {}
        lo = r.choice([8, 40])
        p = site.Profile([site.Layer(soil(r, kind="lin"), r.uniform(lo, 4 * lo), r.uniform(200, 900)) for _ in range(7)]
                         + [site.Layer(soil(r, kind="lin", name="bedrock"), 0, 1500.0)], 0)
    else:
        m, depths, stds, names = r.choice([toro, by_depth])(rock)
        p = profile(r, kinds=["lin"], nmax=6, thick=r.choice([(0.5, 10), (2, 40), (60, 250)]), vel=(100, 2500))
    if r.random() < 0.5:
        p[-1].initial_shear_vel = r.choice([p[-1].initial_shear_vel, 500.0])
    k = n(1500, 4000)
    got = []
    before = r.choice(["none", "same", "other"]) if c % 4 else ["same", "other"][c // 4 % 2]      # the model has been used before: for this profile, then edited, or another one
    if before != "none":
        def use():
            m(p if before == "same" else site.Profile([site.Layer(la.soil_type, la.thickness * r.uniform(0.1, 3), la.initial_shear_vel * r.uniform(0.8, 1.2)) for la in p], 0))
            for la in p if before == "same" else []:
                la.thickness = la.thickness * r.uniform(0.1, 0.5)
        _, raised = call(use)
        if raised:
            tr.ev("vel", raised=raised)
            continue

    def draw():
        direct = 3 if before != "same" else k - 3
        for _ in range(direct):
            got.append([la.initial_shear_vel for la in m(p)])
        for q in V.iter_varied_profiles(p, k - direct, var_velocity=m):
            got.append([la.initial_shear_vel for la in q])
    _, raised = call(draw, secs=120)
    tr.ev("vel", raised=raised, rock=rock,
          seed=[{"vel": F(la.initial_shear_vel), "th": F(la.thickness), "name": la.soil_type.name} for la in p],
          m={"depths": FS(depths), "stds": FS(stds), "names": [{"name": nm, "std": F(s)} for la in {x.soil_type.name for x in p} for nm, s in
                                                               ((la, v) for key, v in names.items() if key in la)],
             "rho_0": F(m.rho_0), "rho_200": F(m.rho_200), "delta": F(m.delta), "h_0": F(m.h_0), "b": F(m.b)},
          draws=[FS([row[i] for row in got]) for i in range(len(p))] if not raised else [])

# the published models
for cls in sorted(V.ToroVelocityVariation.PARAMS):
    start()
    m = V.ToroVelocityVariation.generic_model(cls)
    tr.ev("published", raised="", name=cls, got=FS([m.ln_std, m.rho_0, m.delta, m.rho_200, m.h_0, m.b]))

start()
for v in [50, 150, 179, 181, 270, 359, 361, 500, 749, 751, 1000, 3000] + [logu(r, 60, 3000) for _ in range(n(5, 50))]:
    got, raised = call(lambda: str(V.ToroVelocityVariation.usgs_site_class(r.choice([v, float(v), np.float64(v)]))))
    tr.ev("class", raised=raised, vs30=F(v), got=got or "")
got, raised = call(lambda: [str(x) for x in V.ToroVelocityVariation.site_classes()])
tr.ev("classes", raised=raised, got=got or [])

# ---------------------------------------------------------------- layerings
for c in range(n(6, 40)):
    start()
    par = {"c_1": 10.86, "c_2": -0.89, "c_3": 1.98}      # the recommended values
    given = {} if c % 3 == 0 else {"c_1": r.uniform(2, 15), "c_2": -r.choice([0.5, 0.89, 0.8, r.uniform(0.2, 0.95)]), "c_3": r.uniform(0.5, 3)}
    par.update(given)
    m = V.ToroThicknessVariation(**given)
    p = profile(r, kinds=["lin"], nmax=4, thick=(5, 60))
    depth = p[-1].depth
    part = depth * r.uniform(0.1, 0.9)
    got = []

    def draw():
        for i, q in enumerate(V.iter_varied_profiles(p, k, var_thickness=m)):
            tops = [la.depth for la in q][1:-1]
            got.append([len(tops), int(sum(float(t) < part for t in tops))])
    k = n(600, 3000)
    _, raised = call(draw, secs=120)
    tr.ev("layering", raised=raised, m={k: F(v) for k, v in par.items()}, stated=FS([m.c_1, m.c_2, m.c_3]), depth=F(depth), part=F(part), got=got)


# ------------------------------------------------------------- random numbers
for lim in [2, 1, 3, r.uniform(0.5, 4)]:
    start()
    g = V.TruncatedNorm(lim)
    if r.random() < 0.5:
        g = V.TruncatedNorm(r.choice([0.7, 2.5]))
        g.limit = lim
    rho = r.choice([-0.7, 0.0, 0.5, r.uniform(-0.9, 0.9)])
    k = n(3000, 20000)
    v, raised = call(lambda: (np.ravel(g(k)), [np.ravel(g())[0] for _ in range(50)], [g.correlated(rho) for _ in range(k // 3)],
                              [[q, *g.correlated_at_percentile(rho, q)] for q in (0.5, 0.16, 0.9, r.random())]))
    tr.ev("norm", raised=raised, lim=F(lim), rho=F(rho), stated=FS([g.limit, g.scale]), many=FS(v[0]) if v else [], few=FS(v[1]) if v else [],
          pairs=[FS(x) for x in v[2]] if v else [], at=[FS(x) for x in v[3]] if v else [])


# ---------------------------------------------------------------- soil types
def model(**kw):
    corr = r.choice([-0.5, -0.5, 0.0, 0.4, -0.9, r.uniform(-0.9, 0.9)])
    lg = r.choice([None, None, [0.05, 1], [0.2, 0.9], [0.0, 1]])
    ld = r.choice([None, None, [0.0, 0.15], [0.01, 0.08]])
    if lg:
        kw["limits_mod_reduc"] = lg
    if ld:
        kw["limits_damping"] = ld
    if r.random() < 0.5:
        m, kind = V.DarendeliVariation(corr, **kw), "darendeli"
        lg = lg or [0.05, 1]
    else:
        kind = "spid"
        lg = lg or [0, 1]
        sg, sd = 0.15, 0.30
        if r.random() < 0.5:
            sg, sd = r.uniform(0.05, 0.3), r.uniform(0.1, 0.5)
            kw.update(std_mod_reduc=sg, std_damping=sd)
        m = V.SpidVariation(corr, **kw)
        return m, {"kind": kind, "corr": F(corr), "lg": FS(lg), "ld": FS(ld or [0, 0.15]), "sg": F(sg), "sd": F(sd)}
    return m, {"kind": kind, "corr": F(corr), "lg": FS(lg), "ld": FS(ld or [0, 0.15]), "sg": "0", "sd": "0"}


def xy(c):
    return {"x": FS(c.strains), "y": FS(c.values)} if hasattr(c, "strains") else {"x": [], "y": FS(c)}


def curves(st):
    return {"g": xy(st.mod_reduc), "d": xy(st.damping)}


def a_soil():
    if r.random() < 0.25:
        k = r.choice([3, 6, 9])
        eps = [10 ** (-6 + 4 * i / (k - 1)) for i in range(k)]
        g = sorted((r.uniform(0.05, 0.99) for _ in eps), reverse=True)
        d = sorted(r.uniform(0.004, 0.12) for _ in eps)
        return site.SoilType("own", 18.0, MR("", eps, g), DC("", eps, d))
    return soil(r, kind=r.choice(["nl", "nl", "dar", "nlmod"]))


for _ in range(n(12, 80)):
    start()
    m, rec = model()
    st = a_soil()
    before = curves(st)
    got = []

    def draw():
        for _ in range(n(150, 400)):
            got.append(curves(m(st)))
    _, raised = call(draw, secs=60)
    tr.ev("soil", raised=raised, m=rec, seed=before, after=curves(st), draws=got)

for _ in range(n(25, 250)):
    start()
    m, rec = model()
    p = profile(r, kinds=["nl", "dar", "nlmod"], nmax=4, half=r.choice(["lin", "nl"]))
    sts = list(p[:-1])
    got = []

    def draw():
        for q in V.iter_varied_profiles(p, r.choice([1, 2, 5]), var_soiltypes=m, var_velocity=r.choice([None, V.ToroVelocityVariation.generic_model("USGS C")])):
            got.append([curves(la.soil_type) for la in q[:-1]])
    _, raised = call(draw)
    tr.ev("profiles", raised=raised, m=rec, seed=[curves(la.soil_type) for la in sts], draws=got,
          first=[min(j + 1 for j, lb in enumerate(sts) if lb.soil_type is la.soil_type) for la in sts])

# --------------------------------------------------------------- percentiles
for _ in range(n(40, 400)):
    start()
    pct = r.choice([[0.5], [0.16, 0.5, 0.84], [0.05, 0.95], [0.5, 0.16, 0.84, 0.3], [r.uniform(0.01, 0.99) for _ in range(r.randint(1, 4))],
                    [0.001, 0.999], [0.84, 0.16, 0.84]])
    m, rec = model(sample_mode="fixed_percentiles", percentiles=r.choice([list, tuple, np.array])(pct))
    p = profile(r, kinds=["nl", "dar", "nlmod"], nmax=3)
    count = r.choice([len(pct), 2 * len(pct), 3 * len(pct), r.randint(1, 7)])
    got = []
    vv = r.choice([None, V.ToroVelocityVariation.generic_model("USGS C")])
    if r.random() < 0.4:       # simulated before with other curves
        def use():
            list(V.iter_varied_profiles(p, len(pct), var_soiltypes=m))
            for st in {id(la.soil_type): la.soil_type for la in p}.values():
                for cv in (st.mod_reduc, st.damping):
                    if hasattr(cv, "values"):
                        cv.values = cv.values * r.uniform(0.5, 0.95)
        _, raised = call(use)
        if raised:
            tr.ev("pct", raised=raised)
            continue

    def draw():
        for q in V.iter_varied_profiles(p, count, var_velocity=vv, var_soiltypes=m):
            got.append([curves(la.soil_type) for la in q[:-1]])
    _, raised = call(draw)
    direct = []

    def at():
        for i in range(len(pct)):
            direct.append(curves(m(p[0].soil_type, sample_index=i)))
    _, raised2 = call(at)
    tr.ev("pct", raised=raised, raised2=raised2, m=rec, pct=FS(pct), count=count, seed=[curves(la.soil_type) for la in p[:-1]], draws=got, direct=direct)

# configurations that must be refused
st = soil(r, kind="nl")
for what, fn in (
        ("none", lambda c: c(-0.5, sample_mode="fixed_percentiles")),
        ("empty", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[])),
        ("zero", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[0.0, 0.5])),
        ("one", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[0.5, 1.0])),
        ("outside", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[0.5, 1.5])),
        ("percent", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[16, 50, 84])),
        ("negative", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[-0.5])),
        ("mode", lambda c: c(-0.5, sample_mode="percentiles", percentiles=[0.5])),
        ("index", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[0.5])(st)),
        ("range", lambda c: c(-0.5, sample_mode="fixed_percentiles", percentiles=[0.5])(st, sample_index=1))):
    for c in (V.DarendeliVariation, V.SpidVariation):
        start()
        _, raised = call(fn, c)
        tr.ev("refuse", raised=raised, what=what)
tr.close()
