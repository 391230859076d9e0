"""C10: frequency-dependent calculations; the same calculator on several motions."""
from obs import profile, soil_rec, ts_motion
from pystrata import motion, propagation, site
from rec import CS, F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("fdm")
FDM = propagation.FrequencyDependentEqlCalculator


def rvt():
    fr = sorted(logu(r, 0.3, 40) for _ in range(r.choice([10, 14])))
    return motion.RvtMotion(fr, [0.02 * r.uniform(0.5, 2) * f / (1 + (f / 8) ** 2) for f in fr], duration=8.0)


for case in range(n(70, 800)):
    p = profile(r, kinds=["nl", "nl", "nlmod", "nldamp", "dar"], nmax=3, half="lin", thick=(1, 15), vel=(100, 500))
    tr.new(case)
    tr.ev("profile", raised="", ls=[{"soil": soil_rec(la.soil_type), "vel": F(la.initial_shear_vel), "dmin": F(la.damping_min),
                                     "th": F(la.thickness)} for la in p])
    ratio = r.choice([0.65, 1.0, 0.8])
    limit = r.choice([None, 0.05, 0.05, 0.002])
    bw = r.choice([20, 30, 10.5])
    meth = r.choice(["ka02", "zr15", f"ko:{bw}", f"ko:{bw}"])
    calc = FDM(method=meth, strain_ratio=ratio, strain_limit=limit, tolerance=r.choice([0.01, 1, 5]), max_iterations=r.choice([1, 3, 6, 15]))
    if r.random() < 0.2:
        calc, meth, ratio, limit = FDM(), "ka02", 0.65, 0.05
    for _ in range(r.randint(1, 3)):
        m = rvt() if r.random() < 0.3 else ts_motion(r, npts=r.choice([32, 24, 31]), dt=r.choice([0.02, 0.01]), amp=r.choice([0.02, 0.2]))
        lin = p.location(r.choice(["outcrop", "within"]), index=-1)
        if r.random() < 0.2:
            lin = p.location("outcrop", index=r.randrange(len(p)))

        def go():
            calc(m, p, lin)
            locs = [site.Location(i, la, "within", la.thickness / 2) for i, la in enumerate(p[:-1])]
            tf = [calc.calc_strain_tf(lin, x) for x in locs]
            return [CS(t) for t in tf], [F(m.calc_peak(t)) for t in tf]

        v, raised = call(go)
        tr.ev("run", raised=raised, method=meth.split(":")[0], bw=F(bw), f=FS(m.freqs), fas=CS(m.fourier_amps), ratio=F(ratio), limit=F(limit),
              tf=v[0] if v else [], pk=v[1] if v else [],
              o=[{"eps": FS(la.strain), "G": FS(la.shear_mod), "D": FS(la.damping), "smax": F(la.strain_max)} for la in p] if v else [])
tr.close()
