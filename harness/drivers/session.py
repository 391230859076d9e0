"""C11: calculations in any order on shared motions, profiles and calculators."""
import copy
import hashlib

import numpy as np
from obs import curve, soil, st_content, ts_motion
from pystrata import motion, propagation, site
from rec import F, FS, Trace, call, histories, logu, n, rng

tr = Trace()
r = rng("session")
PR = propagation
CALCS = {
    "le": lambda: PR.LinearElasticCalculator(),
    "eql": lambda: PR.EquivalentLinearCalculator(strain_limit=None),
    "eql2": lambda: PR.EquivalentLinearCalculator(strain_ratio=0.5, tolerance=1, strain_limit=2e-3, max_iterations=6),
    "zr15": lambda: PR.FrequencyDependentEqlCalculator(method="zr15", strain_limit=None),
    "ka02": lambda: PR.FrequencyDependentEqlCalculator(method="ka02", strain_limit=None),
    "ko": lambda: PR.FrequencyDependentEqlCalculator(method="ko:20", strain_ratio=1.0, strain_limit=None),
    "qwl": lambda: PR.QuarterWaveLenCalculator(site_atten=0.02),
}


def dig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def mot_given(m):
    d = [FS(m.freqs), FS(np.abs(m.fourier_amps))]
    if isinstance(m, motion.TimeSeriesMotion):
        d += [FS(m.accels), F(m.time_step)]
    return dig(d)


def prof_given(p):
    return dig([F(p.wt_depth)] + [[F(la.thickness), F(la.initial_shear_vel), F(la.damping_min), F(la.depth), st_content(la.soil_type)] for la in p])


def props(p):
    out = []
    for la in p:
        out += list(np.atleast_1d(la.shear_mod)) + list(1e3 * np.atleast_1d(la.damping))
    return FS(out)


def ri(z):
    return list(np.real(z)) + list(np.imag(z))


def locs(p, where):
    return p.location(where[0], index=-1) if where[1] is None else p.location(where[0], depth=where[1])


def result(kind, calc, p, lin):
    if kind == "qwl":
        return {"response": FS(np.r_[calc.crustal_amp, calc.site_term]), "strain": [], "layers": []}
    res, st = [], []
    for b in (p.location("outcrop", index=0), p.location("within", depth=p[-1].depth / 2)):
        res += ri(calc.calc_accel_tf(lin, b))
    for i, la in enumerate(p[:-1]):
        st += ri(1e3 * calc.calc_strain_tf(lin, site.Location(i, la, "within", la.thickness / 2)))
    lay = []
    if kind != "le":
        for la in p[:-1]:
            lay += [1e4 * la.strain_max] + list(1e4 * np.atleast_1d(la.strain))
    return {"response": FS(res), "strain": FS(st), "layers": [*props(p), *FS(lay)]}


def fresh_profile(p):
    """An equal profile that shares nothing with p."""
    sts = {}

    def st(s):
        if id(s) not in sts:
            c = [copy.deepcopy(x) for x in (s.mod_reduc, s.damping)]
            sts[id(s)] = site.SoilType(s.name, s.unit_wt, *c)
        return sts[id(s)]

    return site.Profile([site.Layer(st(la.soil_type), la.thickness, la.initial_shear_vel, la.damping_min) for la in p], p.wt_depth)


def fresh_motion(m):
    if isinstance(m, motion.TimeSeriesMotion):
        return motion.TimeSeriesMotion("", "", m.time_step, np.array(m.accels), fa_length=2 * (len(m.freqs) - 1))
    return motion.RvtMotion(np.array(m.freqs), np.array(m.fourier_amps), duration=m.duration)


def linear_twin(p):
    """A linear column with the current properties of p."""
    return site.Profile([site.Layer(site.SoilType("", la.unit_wt, None, float(la.damping)), la.thickness, float(la.shear_vel)) for la in p], p.wt_depth)


def mk_profile():
    ls = []
    pool = [soil(r, "nl"), soil(r, r.choice(["nl", "lin", "nldamp"]))]
    for _ in range(r.randint(1, 3)):
        ls.append(site.Layer(r.choice(pool), r.uniform(2, 10), r.uniform(150, 500), r.choice([None, 0.015, 0.0])))
    ls.append(site.Layer(r.choice([soil(r, "lin"), pool[0]]), 0, 900))
    return site.Profile(ls, r.choice([0, 3]))


def mk_motions():
    # as many frequencies as the time series, but others; two of them with common ends
    fr = np.array(sorted(logu(r, 0.3, 30) for _ in range(9)))
    f2 = np.linspace(fr[0], fr[-1], 9) if r.random() < 0.5 else np.array(sorted(logu(r, 0.1, 50) for _ in range(9)))
    rvt = lambda f: motion.RvtMotion(f, 0.02 * f / (1 + (f / 8) ** 2), duration=8.0)      # noqa: E731
    ms = [ts_motion(r, npts=16, dt=0.02), ts_motion(r, npts=16, dt=0.01, amp=0.3), rvt(fr), rvt(f2)]
    if r.random() < 0.5:
        ms[1] = ts_motion(r, npts=r.choice([16, 11]), dt=0.02, amp=0.3)
    # also Fourier transforms of a length that is no power of two
    for k in (0, 1):
        if r.random() < 0.5:
            ms[k] = motion.TimeSeriesMotion("", "", ms[k].time_step, np.array(ms[k].accels), fa_length=r.choice([16, 18, 22, 26]))
    return ms


def generated(hs):
    """Every history of the generating model; the last operation of each is judged."""
    def st(name, lo):
        eps = [1e-6, 1e-5, 1e-4, 1e-3, 1e-2]
        return site.SoilType(name, 18.0, site.ModulusReductionCurve("", eps, [1, 0.95, 0.8, 0.4, 0.1]), site.DampingCurve("", eps, [lo, 0.02, 0.04, 0.1, 0.2]))

    def mk(k):
        a, b = st("a", 0.01), st("b", 0.015)
        return site.Profile([site.Layer(a, 4.0 + k, 180.0), site.Layer(b, 5.0, 260.0 + 40 * k), site.Layer(a, 3.0, 320.0),
                             site.Layer(site.SoilType("rock", 22.0, None, 0.01), 0, 900.0)], 2.0)
    acc = {1: ts_motion(r, npts=16, dt=0.02, amp=0.2).accels, 2: ts_motion(r, npts=26, dt=0.02, amp=0.3).accels}
    kinds = {1: ["le"], 2: ["eql"], 3: ["ko"]}
    if n(0, 1):
        kinds = {1: ["le", "qwl"], 2: ["eql", "eql2"], 3: ["ko", "zr15", "ka02"]}
    where = ("outcrop", None)
    refs = {}
    for case, h in enumerate(hs):
        mots = [motion.TimeSeriesMotion("", "", 0.02, np.array(acc[k])) for k in (1, 2)]
        ps = [mk(0), mk(1)]
        kind_of = {c: x[case % len(x)] for c, x in kinds.items()}
        calcs = {c: CALCS[k]() for c, k in kind_of.items()}
        le = PR.LinearElasticCalculator()
        now = lambda: {"mots": [mot_given(m) for m in mots], "profs": [prof_given(p) for p in ps]}      # noqa: E731
        edits = [0, 0]

        def do(o):
            pk = o["p"] - 1
            p = ps[pk]
            at = locs(p, where)
            if o["op"] == "run":
                calcs[o["c"]](mots[o["m"] - 1], p, at)
            elif o["op"] == "keep":
                (calcs[1] if kind_of[1] == "le" else le)(mots[o["m"] - 1], p, at, reset_layers=False)
            elif edits[pk] % 2:
                p[1].initial_shear_vel = 240.0 + edits[pk]
                edits[pk] += 1
            else:
                p[0].thickness = 6.5 + edits[pk]
                edits[pk] += 1
            return at

        def begin():
            for o in h[:-1]:
                if o["op"] != "keep" or all(np.size(la.shear_mod) == np.size(la.damping) == 1 for la in ps[o["p"] - 1]):
                    do(o)

        tr.new(case)
        _, raised = call(begin)
        o = h[-1]
        pk, p = o["p"], ps[o["p"] - 1]
        tr.ev("objects", raised=raised, **now())
        if raised:
            continue
        if o["op"] == "edit":
            _, raised = call(do, o)
            tr.ev("edit", p=pk, raised=raised, **now())
            continue
        if o["op"] == "keep":
            if any(np.size(la.shear_mod) > 1 or np.size(la.damping) > 1 for la in p):
                continue
            twin, before, ref = linear_twin(p), props(p), PR.LinearElasticCalculator()

            def both():
                ref(fresh_motion(mots[o["m"] - 1]), twin, locs(twin, where))
                at = do(o)
                return [{"response": result("le", x, q, w)["response"]} for x, q, w in ((ref, twin, locs(twin, where)), (calcs[1] if kind_of[1] == "le" else le, p, at))]
            v, raised = call(both)
            tr.ev("keep", p=pk, m=o["m"], raised=raised, ref=v[0] if v else {}, res=v[1] if v else {}, before=before, after=props(p), **now())
            continue
        kind = kind_of[o["c"]]
        given = now()
        key = (kind, given["mots"][o["m"] - 1], given["profs"][pk - 1])
        if key not in refs:
            def fresh():
                q, c, mm = fresh_profile(p), CALCS[kind](), fresh_motion(mots[o["m"] - 1])
                c(mm, q, locs(q, where))
                return result(kind, c, q, locs(q, where))
            refs[key] = call(fresh)
        v, raised = refs[key]
        tr.ev("fresh", calc=kind, m=o["m"], p=pk, lin="", raised=raised, res=v or {})
        v, raised = call(lambda: result(kind, calcs[o["c"]], p, do(o)))
        tr.ev("run", calc=kind, m=o["m"], p=pk, lin="", raised=raised, res=v or {}, **now())


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(25, 300)):
    tr.new(case)
    mots, ps = mk_motions(), [mk_profile(), mk_profile()]
    calcs = {k: f() for k, f in CALCS.items()}
    now = lambda: {"mots": [mot_given(m) for m in mots], "profs": [prof_given(p) for p in ps]}      # noqa: E731
    tr.ev("objects", **now())
    seen = set()
    iterated = {}
    for _ in range(r.randint(8, 14)):
        op = r.choice(["run"] * 6 + ["edit", "keep", "keep"])
        pk, mk = r.randrange(2), r.randrange(len(mots))
        p, m = ps[pk], mots[mk]
        if op == "edit":
            at = r.randrange(len(p) - 1)

            def go():
                w = r.choice(["vel", "dmin", "th", "wt", "add", "curve"])
                if w == "vel":
                    p[at].initial_shear_vel = r.uniform(150, 500)
                elif w == "dmin":
                    p[at].damping_min = r.uniform(0.005, 0.03)
                elif w == "th":
                    p[at].thickness = r.uniform(2, 10)
                elif w == "add":
                    p.insert(r.randrange(len(p)), site.Layer(p[at].soil_type, r.uniform(2, 6), r.uniform(150, 500)))
                elif w == "curve" and p[at].soil_type.is_nonlinear and hasattr(p[at].soil_type.mod_reduc, "values"):
                    c = p[at].soil_type.mod_reduc
                    c.values = [c.values[0]] + [x * 0.9 for x in c.values[1:]]
                else:
                    p.wt_depth = r.uniform(0, 10)

            _, raised = call(go)
            tr.ev("edit", p=pk + 1, raised=raised, **now())
            continue
        where = r.choice([("outcrop", None), ("within", None), ("outcrop", 2.0), ("incoming_only", None)])
        if op == "keep":
            if any(np.size(la.shear_mod) > 1 or np.size(la.damping) > 1 for la in p):
                continue
            twin = linear_twin(p)
            before = props(p)
            ref = PR.LinearElasticCalculator()
            v, raised = call(lambda: (ref(fresh_motion(m), twin, locs(twin, where)), calcs["le"](m, p, locs(p, where), reset_layers=False),
                                      {"response": result("le", ref, twin, locs(twin, where))["response"]},
                                      {"response": result("le", calcs["le"], p, locs(p, where))["response"]})[2:])
            tr.ev("keep", p=pk + 1, m=mk + 1, raised=raised, ref=v[0] if v else {}, res=v[1] if v else {}, before=before, after=props(p), **now())
            continue
        kind = r.choice(["le", "eql", "eql", "eql2", "zr15", "ka02", "ko", "ko", "ko", "qwl"])
        lin = f"{where}"
        given = now()
        if (key := (kind, given["mots"][mk], given["profs"][pk], lin)) not in seen:
            seen.add(key)

            def ref():
                q, c, mm = fresh_profile(p), CALCS[kind](), fresh_motion(m)
                c(mm, q, locs(q, where))
                return result(kind, c, q, locs(q, where))

            v, raised = call(ref)
            tr.ev("fresh", calc=kind, m=mk + 1, p=pk + 1, lin=lin, raised=raised, res=v or {})

        def run():
            c = calcs[kind]
            at = locs(p, where)
            c(m, p, at)
            return result(kind, c, p, at)

        v, raised = call(run)
        tr.ev("run", calc=kind, m=mk + 1, p=pk + 1, lin=lin, raised=raised, res=v or {}, **now())
tr.close()
