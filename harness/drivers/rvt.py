"""C21: random-vibration motions of every kind and their peaks, read in any order."""
import numpy as np
from obs import rvt_rec
from pystrata import motion
from rec import CS, F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("rvt")


def spectrum(k):
    f = sorted(logu(r, 0.1, 40) for _ in range(k))
    if r.random() < 0.3:
        f = sorted(r.sample(range(1, 60), k))              # whole numbers
    if r.random() < 0.15:
        f[0] = 0.0
    s = [r.uniform(0.1, 1) * 0.1 for _ in f]
    return f, s


def make():
    kind = r.choice(["rvt", "rvt", "rvt", "compatible", "source"])
    peak = r.choice(["D64", "D64", None, "BJ84", "V75", "DK85", "LP99", "BT15"])
    kw = {} if peak is None else {"peak_calculator": peak}
    if peak == "BT15":
        kw["calc_kwds"] = {"region": "wna", "mag": 6.5, "dist": 20}
    if peak == "LP99":
        kw["calc_kwds"] = {"region": "wna", "mag": 6.5, "dist": 20}
    x = {"kind": kind, "peak": str(peak)}
    if kind == "rvt":
        f, s = spectrum(r.choice([5, 12, 30]))
        if peak != "D64":
            f = [max(v, 0.05) for v in f]
        d = r.uniform(1, 40)
        x.update(f=FS(f), S=FS(s), dur=F(d))
        how = r.choice([list, np.array, lambda v: list(v)[::-1]])
        return x, lambda: motion.RvtMotion(how(f), how(s), duration=d, **kw)
    if kind == "source":
        s = {"mag": r.choice([5.0, 6.5, 7.5, r.uniform(4, 8)]), "dist": r.choice([5.0, 60.0, 100.0, 200.0, r.uniform(1, 300)]), "region": r.choice(["wna", "cena"]),
             "drop": r.choice([None, None, 50.0, 150.0]), "depth": r.choice([None, 4.0, 12.0])}
        k2 = {"stress_drop": s["drop"]} if s["drop"] else {}
        if s["depth"] is not None:
            k2["depth"] = s["depth"]
        x["src"] = {"mag": F(s["mag"]), "dist": F(s["dist"]), "region": s["region"], "drop": F(s["drop"]), "depth": F(s["depth"] or 8)}
        return x, lambda: motion.SourceTheoryRvtMotion(s["mag"], s["dist"], s["region"], **k2, **kw)
    # a response spectrum of an ordinary shape; the motion made from it has it
    of = [float(v) for v in np.geomspace(r.choice([0.2, 0.5]), r.choice([20, 50]), r.choice([12, 25]))]
    pga, fc = r.choice([0.1, 0.3]), r.uniform(2, 5)
    sa = [float(pga * (1 + 1.4 * np.exp(-np.log(v / fc) ** 2 / 0.8)) * min(1.0, (v / 1.0) ** 0.8)) for v in of]
    d, damp = r.uniform(5, 20), r.choice([0.05, 0.05, 0.02])
    if damp != 0.05:
        kw["osc_damping"] = damp
    x.update(of=FS(of), sa=FS(sa), damp=F(damp))
    how = r.choice([np.array, lambda v: np.array(v)[::-1]])
    if r.random() < 0.3:
        s = {"magnitude": r.uniform(5, 7), "distance": r.uniform(5, 80), "region": r.choice(["wna", "cena"])}
        x["src"] = {"mag": F(s["magnitude"]), "dist": F(s["distance"]), "region": s["region"], "drop": "None", "depth": "8"}
        return x, lambda: motion.CompatibleRvtMotion(how(of), how(sa), event_kwds=s, **kw)
    x["dur"] = F(d)
    return x, lambda: motion.CompatibleRvtMotion(how(of), how(sa), duration=d, **kw)


def tfunc(m):
    k = len(m.freqs)
    return np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(k)]) if r.random() < 0.6 else np.full(k, r.uniform(0.2, 3))


for case in range(n(60, 500)):
    tr.new(case)
    x, fn = make()
    m, raised = call(fn, secs=60)
    full = {"rvt": 8, "source": 3, "compatible": 3}[x["kind"]]
    o = {}
    if not raised:
        o, raised = call(lambda: {**rvt_rec(m), "w": FS(m.angular_freqs), "n": len(m.freqs)})
    if not raised and x["kind"] != "rvt":      # keep the record small: every k-th amplitude of the source model
        x["pick"] = list(range(1, len(m.freqs) + 1, 97))
    tr.ev("motion", raised=raised, x=x, o=o or {})
    if raised:
        continue
    for _ in range(full):
        op = r.choice(["pga", "pgv", "peak", "osc", "osctf", "pgatf", "pgvtf", "scaled"])
        if op == "pga":
            v, raised = call(lambda: m.pga)
            tr.ev("pga", raised=raised, v=F(v))
        elif op == "pgv":
            v, raised = call(lambda: m.pgv)
            tr.ev("pgv", raised=raised, v=F(v))
        elif op == "peak":
            tf = tfunc(m)
            v, raised = call(lambda: m.calc_peak(tf))
            tr.ev("peak", raised=raised, tf=CS(tf), v=F(v))
        elif op in ("pgatf", "pgvtf"):
            tf = tfunc(m)
            v, raised = call(m.calc_pga if op == "pgatf" else m.calc_pgv, tf)
            tr.ev(op, raised=raised, tf=CS(tf), v=F(v))
        elif op == "scaled":                    # the same motion through a constant gain
            k = r.uniform(0.1, 5)
            v, raised = call(lambda: m.calc_peak(np.full(len(m.freqs), k)))
            v0, raised0 = call(lambda: m.calc_peak())
            tr.ev("scaled", raised=raised or raised0, k=F(k), v=F(v), v0=F(v0))
        else:
            fr = [logu(r, 0.2, 60) for _ in range(2)]
            d = r.choice([0.05, 0.02, 0.1])
            tf = tfunc(m) if op == "osctf" else None
            v, raised = call(lambda: m.calc_osc_accels(np.array(fr), d, tf) if tf is not None else m.calc_osc_accels(np.array(fr), d))
            tr.ev("osc", raised=raised, freqs=FS(fr), d=F(d), tf=CS(tf) if tf is not None else [], v=FS(v) if not raised else [])
    if x["kind"] == "compatible":
        v, raised = call(lambda: m.calc_osc_accels(np.array([float(f) for f in x["of"]]), float(x["damp"])))
        tr.ev("target", raised=raised, v=FS(v) if not raised else [])
tr.close()
