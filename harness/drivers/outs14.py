"""C14: statistics and tables after each result."""
import numpy as np
from obs import profile, ts_motion
from outs import columns, factories
from pystrata import output, propagation
from rec import FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("outs14")


def mk_calc():
    p = profile(r, nmax=4, thick=(1, 10))
    m = ts_motion(r, npts=r.choice([16, 20]), amp=r.choice([0.05, 0.2]))
    c = propagation.EquivalentLinearCalculator(strain_limit=None)
    c(m, p, p.location("outcrop", index=-1))
    return c


for case in range(n(60, 700)):
    tr.new(case)
    calcs = [mk_calc() for _ in range(r.randint(1, 3))]
    freqs = sorted(logu(r, 0.3, 20) for _ in range(r.choice([1, 4])))
    fac = {k: v for k, v in factories(freqs, 1.0).items() if not v[1]}
    kind = r.choice(sorted(fac))
    o = fac[kind][0]()
    prof = isinstance(o, output.ProfileBasedOutput)
    names = r.choice(["plain", "default", "tuple"])
    for step in range(r.choice([1, 2, 2, 4, 6])):
        if step and r.random() < 0.2:
            call(o.reset)
        name = {"plain": f"n{len(o.names)}", "default": None, "tuple": ("a", f"n{len(o.names)}")}[names]
        _, raised = call(lambda: o(r.choice(calcs), name) if name else o(r.choice(calcs)))
        d, raised2 = call(lambda: dict(names=[str(x) for x in o.names], refs=columns(o.refs), vals=columns(o.values)))
        tr.ev("held", kind="profile" if prof else "fixed", raised=raised or raised2, **(d or {}))
        if raised or raised2:
            break
        for _ in range(2):
            kw = {}
            if prof and r.random() < 0.8:
                top = float(np.nanmax(np.asarray(o.refs)))
                pts = [0.0, top, 1.2 * top] + [r.uniform(0, top) for _ in range(3)] + r.sample([float(x) for x in np.ravel(o.refs) if np.isfinite(x)], 2)
                pts = sorted(pts) if r.random() < 0.8 else pts
                kw["ref"] = np.array(pts)
            given = FS(kw["ref"]) if kw else []
            if r.random() < 0.5:
                df = r.random() < 0.4

                def stats():
                    s = o.calc_stats(as_dataframe=df, **kw)
                    got = dict(ref=FS(s.index if df else s["ref"]), median=FS(s["median"]), std=FS(s["ln_std"]))
                    if not df:      # what was given belongs to the caller
                        s["median"][0] = s["ln_std"][0] = -1
                    return got

                v, raised = call(stats)
                tr.ev("stats", given=given, raised=raised, **(v or {}))
            else:

                def table():
                    t = o.to_dataframe(**kw)
                    return dict(ref=FS(t.index), columns=[str(x) for x in t.columns], cells=[FS(row) for row in np.asarray(t)])

                v, raised = call(table)
                tr.ev("table", given=given, raised=raised, **(v or {}))
tr.close()
