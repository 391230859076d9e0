"""C26: soil types built from the empirical nonlinear models."""
import numpy as np
from pystrata import site
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("soils")
GROUP = {"sand": "clean_sand_and_gravel", "silt": "nonplastic_silty_sand", "clay": "clayey_soil"}
KEY = {"s": "stress_mean", "e": "void_ratio", "d50": "diam_50", "cu": "coef_unif", "fc": "fines_cont", "w": "water_cont", "pi": "plas_index", "ocr": "ocr"}


def opt(d, key, spec, value, default):
    """give the parameter, or sometimes leave it at its default"""
    if r.random() < 0.15:
        return default
    d[key] = value
    return value


def strains(least=1e-6):
    k = r.choice(["default", "default", "log", "list", "tuple", "one", "big", "big"])
    if k == "default":
        return None
    if k == "one":
        return [logu(r, 1e-5, 1e-2)]
    lo, hi, m = logu(r, least, 1e-5), r.uniform(0.3, 1) if k == "big" else logu(r, 1e-2, 0.1), r.randint(2, 30)
    v = np.geomspace(lo, hi, m)
    return {"list": list(map(float, v)), "tuple": tuple(map(float, v))}.get(k, v)


def stress():
    return r.choice([101.3, 50, 200, logu(r, 10, 1500)])


def model():
    """(name, constructor, arguments, spec parameters)"""
    m = r.choice(["darendeli", "menq", "rollins", "two", "alemu", "kishida", "wang", "wang", "wang"])
    a = {}
    dmin = r.choice([None, None, 0.01, 0.0, r.uniform(0.001, 0.06), np.float64(0.02)])
    if m == "darendeli":
        s = dict(pi=opt(a, "plas_index", 0, r.choice([0, 15, r.uniform(0, 100)]), 0), ocr=opt(a, "ocr", 0, r.choice([1, 2, r.uniform(1, 16)]), 1),
                 s=opt(a, "stress_mean", 0, stress(), 101.3), f=opt(a, "freq", 0, r.choice([1, r.uniform(0.3, 20)]), 1), n=opt(a, "num_cycles", 0, r.choice([10, 1, r.uniform(1, 100)]), 10))
        cls = site.DarendeliSoilType
    elif m == "menq":
        s = dict(cu=opt(a, "coef_unif", 0, r.choice([10, r.uniform(1.1, 40)]), 10), d50=opt(a, "diam_mean", 0, r.choice([5, logu(r, 0.1, 20)]), 5),
                 s=opt(a, "stress_mean", 0, stress(), 101.3), n=opt(a, "num_cycles", 0, r.choice([10, 1, r.uniform(1, 100)]), 10))
        cls = site.MenqSoilType
    elif m == "rollins":
        s = dict(s=opt(a, "stress_mean", 0, stress(), 101.3), cu=opt(a, "coef_unif", 0, r.choice([None, 7, r.uniform(1, 60)]), None), n=opt(a, "num_cycles", 0, r.choice([10, 1, r.uniform(1, 100)]), 10))
        cls = site.RollinsEtAlSoilType
    elif m == "two":
        s = dict(s=opt(a, "stress_mean", 0, stress(), 101.3))
        c = [1.04, 0.438, -0.007, 0.011, 0.318, 1.47, -0.2, 13.125, 1.187, 0.11, 0.23]
        if r.random() < 0.5:
            c = [x * r.uniform(0.8, 1.2) for x in c]
            a["coeffs"] = site.TwoParamModifiedHyperbolicCoeffs(*c)
        s["c"] = c
        cls = site.TwoParamModifiedHyperbolicSoilType
    elif m == "alemu":
        s = dict(pi=opt(a, "plas_index", 0, r.choice([0, r.uniform(0, 32)]), 0), ocr=opt(a, "ocr", 0, r.choice([1, r.uniform(1, 9)]), 1),
                 s=opt(a, "stress_mean", 0, r.uniform(10, 125), 101.3), fc=opt(a, "fines_cont", 0, r.uniform(0.4, 1), 1))
        cls = site.AlemuEtAlSoilType
    elif m == "kishida":
        s = dict(s=opt(a, "stress_vert", 0, r.choice([101.3, logu(r, 10, 400)]), 101.3), oc=opt(a, "organic_content", 0, r.choice([10, r.uniform(5, 80)]), 10),
                 lcr=opt(a, "lab_consol_ratio", 0, r.choice([1, r.uniform(1, 4)]), 1))
        cls = site.KishidaSoilType
    else:
        g, s = wang()
        s = {"group": g, **s}
        a = {KEY[k]: v for k, v in s.items() if k in KEY and v is not None}
        if r.random() < 0.08:
            a.pop("stress_mean", None)
            s["s"] = None
        if r.random() < 0.04:
            s["group"] = "peat"
        a = dict(r.sample(list(a.items()), len(a)))
        a["soil_group"] = GROUP.get(s["group"], "peat")
        cls = site.WangSoilType
    if m in ("darendeli", "menq", "rollins", "wang"):
        s["dmin"] = dmin
        if dmin is not None or r.random() < 0.3:
            a["damping_min"] = dmin
    return m, cls, a, s


# index parameters of the levels, from the least detailed
LEVELS = {("sand", "gmax"): "s e d50 cu fc", ("sand", "ggmax"): "s e cu fc", ("sand", "dmin"): "s fc w e d50", ("sand", "damping"): "s e fc cu",
          ("silt", "gmax"): "s e w", ("silt", "ggmax"): "s e fc", ("silt", "dmin"): "s e fc", ("silt", "damping"): "s e fc",
          ("clay", "gmax"): "s e ocr fc pi", ("clay", "ggmax"): "s e fc ocr pi", ("clay", "dmin"): "s e pi fc", ("clay", "damping"): "s w pi fc"}
TOUR = [(g, k.split()[:i + 1], k.split()[i + 1:i + 2]) for (g, _), k in LEVELS.items() for i in range(len(k.split()))]
r.shuffle(TOUR)
turn = 0


def wang(tour=False):
    global turn
    g = r.choice(["sand", "silt", "clay"])
    if tour:
        g, have, lack = TOUR[turn % len(TOUR)]
        turn += 1
    v = dict(s=stress(), e=r.uniform(0.35, 1.2), d50=logu(r, 0.1, 15), cu=r.uniform(1.2, 12), w=r.uniform(2, 25), pi=r.uniform(3, 50), ocr=r.uniform(1, 8),
             fc=r.uniform(1, 12) if g == "sand" else r.uniform(13, 60))
    if tour:
        return g, {k: None if k in lack or (k not in have and r.random() < 0.3) else x for k, x in v.items()}
    p = r.choice([0, 0.15, 0.4])
    if r.random() < 0.25:
        v[r.choice(["fc", "w"] if g == "sand" else ["pi", "w"])] = 0
    return g, {k: (x if k == "s" or r.random() >= p else None) for k, x in v.items()}


def spec(m, s):
    return {"m": m, **{k: FS(v) if k == "c" else v if k == "group" else "" if v is None else F(v) for k, v in s.items()}}


for case in range(n(260, 2400)):
    tr.new(case)
    m, cls, a, s = model()
    x = strains()
    flip = x is not None and m != "kishida" and r.random() < 0.2      # from large to small strains (written here from small to large)
    if x is not None or r.random() < 0.1:
        a["strains"] = x[::-1] if flip else x
    uw = r.choice([18.0, 11.0, r.uniform(10, 25), None if m == "kishida" else 0])
    if uw is not None and (uw != 0 or r.random() < 0.5):      # no weight by default
        a["unit_wt"] = uw
    if r.random() < 0.4:
        a["name"] = "soil"
    before = dict(a)
    xb = None if x is None else list(a["strains"])

    def build():
        st = cls(**a)
        mr, d = st.mod_reduc, st.damping
        xs = np.asarray(mr.strains)
        mid = np.sqrt(xs[1:] * xs[:-1])
        one = r.random() < 0.3
        ev = (lambda c, g: FS([float(c(y)) for y in g])) if one else (lambda c, g: FS(np.atleast_1d(c(g))))      # noqa: E731
        hyp = m in ("darendeli", "menq", "rollins")
        FS = (lambda z: globals()["FS"](np.asarray(z)[::-1])) if flip else globals()["FS"]      # noqa: N806
        return dict(xm=FS(xs), xd=FS(d.strains), mr=FS(mr.values), d=FS(d.values), dmin=F(st.damping_min), callm=ev(mr, xs), calld=ev(d, xs),
                    midm=ev(mr, mid) if len(mid) else [], midd=ev(d, mid) if len(mid) else [], unit=F(st.unit_wt), nonlinear=bool(st.is_nonlinear),
                    ref=F(st.strain_ref) if hyp else "", curv=F(st.curvature) if hyp else "", scale=F(st.masing_scaling) if hyp else "")
    v, raised = call(build)
    kept = a == before if x is None else (all(a[k] is before[k] for k in before) and list(a["strains"]) == xb)
    tr.ev("soil", raised=raised, k=spec(m, s), given=[] if x is None else FS(x), uw="" if uw is None else F(uw), kept=bool(kept), **(v or {}))
    if m in ("darendeli", "menq", "rollins") and r.random() < 0.3:
        dm = np.array([r.uniform(0, 0.04) for _ in range(r.randint(1, 4))])
        q = {**a, "damping_min": dm}
        v, raised = call(lambda: [FS(row) for row in np.asarray(cls(**q).damping.values)[::-1 if flip else 1]])
        tr.ev("columns", raised=raised, k=spec(m, s), given=[] if x is None else FS(x), dmins=FS(dm), rows=v or [])
    if r.random() < 0.5:
        g, s = wang(tour=True)
        a = {KEY[k]: v for k, v in r.sample(list(s.items()), len(s)) if v is not None}
        xs = r.choice([np.geomspace(1e-6, 0.03, 7), np.array([1e-4, 1e-3])])
        d0 = r.choice([0.0, 0.01, r.uniform(0.001, 0.05)])
        W, G = site.WangSoilType, GROUP[g]

        def direct():
            return dict(lev={q: int(W.get_level(f"{q}_model", G, **a)) for q in ("gmax", "ggmax", "dmin", "damping")}, g=F(W.calc_shear_mod(G, **a)),
                        dm=F(W.calc_damping_min(G, **a)), mr=FS(W.calc_mod_reduc(xs, G, **a)), d=FS(W.calc_damping(xs, G, d0, **a)),
                        dn=FS(W.calc_damping(xs, G, **a)))
        v, raised = call(direct)
        tr.ev("wang", raised=raised, k=spec("wang", {"group": g, "dmin": None, **s}), xs=FS(xs), d0=F(d0), **(v or {}))
tr.close()
