"""C18, C19: time-series motions and their measures, read in any order (FOCUS)."""
import os

import numpy as np
from pystrata import motion
from rec import CS, F, FS, Trace, call, logu, n, rng

FOCUS = os.environ["FOCUS"]
tr = Trace()
r = rng("signals" + FOCUS)


def record(npts, amp):
    k = r.random()
    if k < 0.15:      # an impulse
        a = [0.0] * npts
        a[r.randrange(npts)] = amp
    elif k < 0.3:     # whole numbers
        a = [float(r.randint(-3, 3)) * amp for _ in range(npts)]
    elif k < 0.4:     # an offset
        a = [amp * (1 + 0.1 * r.gauss(0, 1)) for _ in range(npts)]
    else:
        a = [amp * r.gauss(0, 1) for _ in range(npts)]
    if not any(a):
        a[0] = amp
    return a


def tfunc(m):
    nf = len(m.freqs)
    before = [x for x in tfs if len(x) == nf]
    if before and r.random() < 0.35:      # the very array used before, edited since or not
        x = r.choice(before)
        if r.random() < 0.6:
            x[r.randrange(nf) if r.random() < 0.5 else slice(None)] *= r.choice([-2.0, 0.5, 3.0])
        return x
    x = fresh(nf, m)
    if x is not None:
        tfs.append(x)
    return x


def fresh(nf, m):
    k = r.random()
    if k < 0.35:
        return None
    if k < 0.5:
        return np.full(nf, r.choice([0.5, 2.0]))
    if k < 0.75:
        return np.exp(-0.02 * np.pi * np.asarray(m.freqs)) * np.exp(-2j * np.pi * np.asarray(m.freqs) * r.uniform(0, 0.1))
    return np.array([complex(r.gauss(0, 1), r.gauss(0, 1)) for _ in range(nf)])


def make(k):
    npts = r.choice([1, 2, 3, 7, 8, 12, 16, 17, r.randint(4, 40), r.randint(4, 40)])
    if LONG:
        npts = r.choice([100, 128, r.randint(65, 260)])
    a = record(npts, r.choice([1.0, 0.1, 1e-6]))
    dt = r.choice([0.01, 0.005, 0.02, 0.001, 1 / 3, 2.5])
    fal = r.choice([0, 0, 0, npts, npts + 1, npts + r.randint(0, 9), max(1, npts - r.randint(1, 3))])
    given = r.choice([list, np.array])(a)
    if all(x == int(x) for x in a) and r.random() < 0.5:      # whole numbers as such
        given = [int(x) for x in a]
    if k == 2:      # a scaled twin of the first
        a0, dt, fal = made[0]
        a = [-2.5 * x for x in a0]
        given = np.array(a)
        if fal == 0:
            fal = 0
    made.append((a, dt, fal))
    m, raised = call(lambda: motion.TimeSeriesMotion("f", "d", dt, given, **({"fa_length": fal} if fal else {})))
    d = {}
    if not raised:
        d, raised = call(lambda: dict(accels=FS(m.accels), dt2=F(m.time_step), times=FS(m.times), freqs=FS(m.freqs), w=FS(m.angular_freqs), fas=CS(m.fourier_amps)))
    tr.ev("new", m=k, a=FS(a), dt=F(dt), falen=fal, raised=raised, **(d or {}))
    return None if raised else m


for case in range(n({"C18": 100, "C19": 70}[FOCUS], 900)):
    tr.new(case)
    made = []
    ms = []
    tfs = []
    fos = []
    LONG = case % 25 == 7
    for k in range(1 if LONG else r.choice([1, 2])):
        ms.append(make(k + 1))
    if any(m is None for m in ms):
        continue
    for _ in range(4 if LONG else r.randint(4, 10)):
        k = r.randrange(len(ms))
        m = ms[k]
        op = r.choice({"C18": ["read"] * 5 + ["series", "again"], "C19": ["osc", "osc", "osc", "read"]}[FOCUS])
        tf = tfunc(m)
        kw = {} if tf is None else {"tf": tf if r.random() < 0.8 else list(tf)}
        keep = None if tf is None else np.array(tf)
        trec = [] if tf is None else CS(tf)
        if op == "again":
            v, raised = call(lambda: dict(accels=FS(m.accels), freqs=FS(m.freqs), fas=CS(m.fourier_amps)))
            tr.ev(op, m=k + 1, raised=raised, **(v or {}))
        elif op == "series":
            v, raised = call(lambda: m.calc_time_series(**kw))
            tr.ev(op, m=k + 1, tf=trec, raised=raised, v=FS(v))
        elif op == "read":
            what = r.choice(["pga", "pgv", "arias", "cav", "peak", "pgv", "arias", "cav"])
            if what != "peak" and r.random() < 0.5:
                trec, v, raised = [], *call(lambda: getattr(m, "arias_intensity" if what == "arias" else what))
            else:
                fn = {"pga": m.calc_pga, "pgv": m.calc_pgv, "arias": m.calc_arias_intensity, "cav": m.calc_cav, "peak": m.calc_peak}[what]
                v, raised = call(lambda: fn(**kw))
            tr.ev(op, m=k + 1, what=what, tf=trec, raised=raised, v=F(v))
        else:
            grid = [f for f in m.freqs if f > 0]
            fo = [r.choice([logu(r, 0.1, 200), 1e4, r.choice(grid) if grid else 1.0]) for _ in range(r.choice([1, 3, 4] * 8 + [12]))]
            if fos and r.random() < 0.5:      # frequencies asked for before, with other dampings, functions or motions
                fo = r.choice([f for f in (r.choice(fos), r.choice(fos)[::-1], r.choice(fos)[:1] + fo)])
            fos.append(fo)
            d = r.choice([0.05, 0.02, 0.2, 0.5, 0.001])
            if d == 0.05 and r.random() < 0.5:
                v, raised = call(lambda: m.calc_osc_accels(r.choice([list, np.array])(fo), **kw))
            else:
                v, raised = call(lambda: m.calc_osc_accels(r.choice([list, np.array])(fo), d, **kw))
            tr.ev(op, m=k + 1, fo=FS(fo), damp=F(d), tf=trec, raised=raised, v=FS(v))
        if keep is not None and not np.array_equal(keep, tf):
            tr.ev("read", m=k + 1, what="peak", tf=[], raised="TransferFunctionChanged", v="0")
tr.close()
