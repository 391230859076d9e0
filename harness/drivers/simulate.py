"""C16: simulated profiles, interleaved with edits of and calculations with the seed and the results."""
import hashlib

import numpy as np
from obs import Ids, layer_obs, profile, soil, ts_motion
from pystrata import propagation, site, variation
from rec import F, Trace, call, n, rng
from scipy import stats

tr = Trace()
r = rng("simulate")
V = variation


def kept(st):
    """What a variation of the soil type keeps: kind, name, unit weight, strains of the curves."""
    def x(c):
        return [F(s) for s in c.strains] if hasattr(c, "strains") else "linear"
    return hashlib.sha1(repr((type(st).__name__, st.name, F(st.unit_wt), x(st.mod_reduc), x(st.damping))).encode()).hexdigest()[:12]


def obs(p):
    return {"wt": F(p.wt_depth), "ls": [{**layer_obs(ids, la), "stn": kept(la.soil_type)} for la in p]}


def all_obs():
    return [obs(p) for p in ps]


def step(ev, fn, **kw):
    v, raised = call(fn)
    o = []
    if not raised:
        o, raised = call(all_obs)
    tr.ev(ev, raised=raised, obs=o or [], **kw)
    return not raised


def velocity(rock):
    if r.random() < 0.5:
        return V.ToroVelocityVariation.generic_model(r.choice(sorted(V.ToroVelocityVariation.PARAMS)), vary_bedrock=rock)
    return V.DepthDependToroVelVariation.generic_model("USGS C", vary_bedrock=rock, ln_std_map=r.choice([None, {"clay": 0.3}]))


def soiltypes(rock):
    if rock or r.random() < 0.5:
        return V.DarendeliVariation(r.choice([-0.5, 0.0]), vary_bedrock=rock)
    return V.SpidVariation(-0.5)


for case in range(n(70, 700)):
    tr.new(case)
    np.random.seed(case + 1000 * r.randrange(1000))
    ids = Ids()
    ps = []
    models = {}
    mot = ts_motion(r, npts=32, amp=r.choice([0.01, 0.1]))

    def make():
        p = profile(r, kinds=r.choice([None, ["nl", "dar"]]), nmax=4, half=r.choice(["lin", "lin", "nl"]), thick=(0.5, 20))
        if r.random() < 0.3:
            p[-1].thickness = 2.0
        ps.append(p)
        if r.random() < 0.5:      # the seed has been used before
            c = propagation.EquivalentLinearCalculator(strain_limit=None)
            c(mot, p, p.location("outcrop", index=-1))

    if not step("make", make, first=True, k=0):
        continue
    for _ in range(r.randint(2, 5)):
        k = r.choice([0, 0, r.randrange(len(ps))])
        p = ps[k]
        op = r.choice(["iter", "iter", "iter", "half", "half", "one", "calc", "thick", "vel", "dmin", "wt"])
        if len(ps) > 6:
            op = r.choice(["calc", "thick", "vel", "dmin", "wt"])
        at = r.randrange(len(p) - 1)
        x = 0
        if op in ("iter", "one"):
            cfg = {c: r.random() < 0.5 for c in ("thick", "vel", "st", "rockvel", "rockst")}
            if op == "one":       # a single model applied directly
                w = r.choice(["thick", "vel", "st"])
                cfg.update({c: c == w for c in ("thick", "vel", "st")})
            if op == "iter" and any(hasattr(la.soil_type.mod_reduc, "shape") for la in p):
                continue          # only profiles whose soil types have not been varied are seeds of iterations
            cfg["rockvel"] &= cfg["vel"]
            cfg["rockst"] &= cfg["st"]
            count = r.choice([1, 2, 3]) if op == "iter" else 1
            vt, vv, vs = V.ToroThicknessVariation(), velocity(cfg["rockvel"]), soiltypes(cfg["rockst"])
            if r.random() < 0.3:
                vt = V.ToroThicknessVariation(c_1=5.0, c_2=-0.7, c_3=1.0)
            for c, m in (("t", vt), ("v" + str(cfg["rockvel"]), vv), ("s" + str(cfg["rockst"]), vs)):
                models.setdefault(c, []).append(m)
            if r.random() < 0.5:      # models used before, with other seeds or with this one before it was edited
                vt, vv, vs = (r.choice(models[c]) for c in ("t", "v" + str(cfg["rockvel"]), "s" + str(cfg["rockst"])))
            got = []
            if op == "one":
                fn = lambda: got.append(vt(p) if cfg["thick"] else vv(p) if cfg["vel"] else vs.vary_profile(p))     # noqa: E731
            else:
                kw = {}
                for c, key, m in (("thick", "var_thickness", vt), ("vel", "var_velocity", vv), ("st", "var_soiltypes", vs)):
                    if cfg[c]:
                        kw[key] = m
                it = V.iter_varied_profiles(p, count, **kw)

                def fn():
                    for q in it:
                        got.append(q)
            _, raised = call(fn)
            if raised:
                tr.ev("sim", raised=raised, obs=[], k=k + 1, cfg=cfg, i=0)
                break
            many = next((q for q in got if len(q) > 400), None)
            if many is not None:      # summarised: the rate of layering of the models used leaves no room for so many
                tr.ev("many", raised="", obs=all_obs(), k=k + 1, cfg=cfg, layers=len(many),
                      thinnest=F(min(la.thickness for la in many[:-1])), total=F(sum(la.thickness for la in many[:-1])))
                break
            for i, q in enumerate(got):
                if len(ps) < 9:
                    if not step("sim", lambda: ps.append(q), k=k + 1, cfg=cfg, i=i + 1):
                        break
            tr.ev("count", raised="", asked=count, got=len(got), obs=all_obs())
            continue
        if op == "half":
            total = p[-1].depth
            d = r.choice([r.uniform(0.05, 1) * total, r.uniform(1, 3) * total, total + r.uniform(0, 1) * p[-2].thickness,
                          p[at].depth + 0.07, p[at].depth_base + 0.07, p[at].depth_base - 0.07])
            dist = stats.uniform(loc=d, scale=1e-9 * d)
            vh = V.HalfSpaceDepthVariation(dist)
            done = True
            for j in [k] + r.choice([[], [r.randrange(len(ps))]]):      # of this seed, then perhaps of another
                done = done and step("half", lambda: ps.append(vh(ps[j])), k=j + 1, d=F(d))
            if not done:
                break
            continue
        if op == "calc":
            c = r.choice([propagation.LinearElasticCalculator(), propagation.EquivalentLinearCalculator(strain_limit=None)])
            fn = lambda: c(mot, p, p.location("outcrop", index=-1))              # noqa: E731
        elif op == "thick":
            x = r.choice([1.0, 2.0, r.uniform(0.5, 20)])
            fn = lambda: setattr(p[at], "thickness", x)                          # noqa: E731
        elif op == "vel":
            x = r.uniform(100, 900)
            fn = lambda: setattr(p[at], "initial_shear_vel", x)                  # noqa: E731
        elif op == "dmin":
            x = r.uniform(0.002, 0.05)
            fn = lambda: setattr(p[at], "damping_min", x)                        # noqa: E731
        else:
            x = r.uniform(0, 30)
            fn = lambda: setattr(p, "wt_depth", x)                               # noqa: E731
        if not step(op, fn, k=k + 1, at=at + 1, x=F(x)):
            break
tr.close()
