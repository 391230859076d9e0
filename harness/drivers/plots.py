"""C27: outputs and profiles plotted into new axes and axes that already hold something."""
import hashlib

import matplotlib.pyplot as plt
import numpy as np
from matplotlib.cbook import STEP_LOOKUP_MAP
from obs import profile, ts_motion
from outs import columns, factories
from pystrata import output, propagation
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("plots")
PROPS = ["damping", "density", "initial_shear_vel", "max_error", "shear_vel", "slowness", "strain", "travel_time", "unit_wt"]


def dig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:12]


def mk_calc(kind):
    p = profile(r, nmax=4, thick=(1, 10))
    m = ts_motion(r, npts=r.choice([16, 20]), amp=r.choice([0.05, 0.2]))
    c = propagation.EquivalentLinearCalculator(strain_limit=None) if kind == "eql" else propagation.LinearElasticCalculator()
    c(m, p, p.location("outcrop", index=-1))
    return c


def vertices(line):
    """The points of the line as it is drawn."""
    x, y = np.asarray(line.get_xdata(orig=False), float), np.asarray(line.get_ydata(orig=False), float)
    return STEP_LOOKUP_MAP[line.get_drawstyle()](x, y)


def drawn_at(line, zs):
    """Where the line is at each depth: the values of its upright pieces there."""
    x, y = vertices(line)
    out = []
    for z in zs:
        v = [(x[i], x[i + 1]) for i in range(len(x) - 1) if min(y[i], y[i + 1]) < z < max(y[i], y[i + 1])]
        out.append(F(v[0][0]) if len(v) == 1 and v[0][0] == v[0][1] else "nan")
    return out


def between(depths):
    d = sorted({float(x) for x in depths if np.isfinite(x)})
    return [a + (b - a) * r.uniform(0.2, 0.8) for a, b in zip(d, d[1:]) if b - a > 1e-3]


def pick(m):
    """Which points of a long line are compared."""
    return list(range(m)) if m <= 48 else sorted({0, m - 1, *(r.randrange(m) for _ in range(8))})


def axes_obs(ax, known):
    """Lines of the axes; those of profile outputs only by the depths they were asked for."""
    lines = []
    for i, ln in enumerate(ax.get_lines()):
        zs, at, m = known[i] if i < len(known) else ([], [], 0)
        x, y = (np.asarray(v, float) for v in (ln.get_xdata(orig=False), ln.get_ydata(orig=False)))
        ok = bool(at) and len(x) == len(y) == m
        lab = ln.get_label()
        fin = y[np.isfinite(y)]
        lines.append({"label": [] if lab.startswith("_") else [lab], "x": FS(x[at]) if ok else [], "y": FS(y[at]) if ok else [],
                      "zs": FS(zs), "drawn": drawn_at(ln, zs), "lo": F(np.min(fin)) if len(fin) else "nan", "hi": F(np.max(fin)) if len(fin) else "nan"})
    lo, hi = ax.get_ylim()
    leg = ax.get_legend()
    return {"lines": lines, "down": bool(lo > hi), "ylim": [F(lo), F(hi)], "xscale": ax.get_xscale(), "yscale": ax.get_yscale(), "xlabel": ax.get_xlabel(),
            "ylabel": ax.get_ylabel(), "legend": [t.get_text() for t in leg.get_texts()] if leg else []}


for case in range(n(70, 700)):
    tr.new(case)
    plt.close("all")
    how = r.choice(["eql", "eql", "le"])
    calcs = [mk_calc(how) for _ in range(r.randint(1, 4))]
    freqs = sorted(logu(r, 0.3, 20) for _ in range(r.choice([1, 4])))
    fac = factories(freqs, 1.0)
    profs = [k for k in ("maxstrain", "damping", "modreduc", "initvel", "compvel", "csr", "maxaccel") if how == "eql" or k not in ("maxstrain", "csr")]
    family = r.choice([profs, profs, ["accel", "arias", "strain", "strainpct", "stress"], ["fas", "rs"], ["tf", "tfsmooth", "rsr"]])
    outs = [fac[k][0]() for k in (r.choice(family) for _ in range(2))]
    prof = [isinstance(o, output.ProfileBasedOutput) for o in outs]
    axs, known = [], []
    tr.ev("make")

    def outs_dig():
        return dig([(o.names, columns(o.refs), columns(o.values)) for o in outs])

    for _ in range(r.randint(3, 8)):
        k = r.randrange(2)
        o = outs[k]
        op = r.choice(["add", "add", "plot", "plot", "plot"] + ["prof"] * (family is profs))
        if o.values is None and op == "plot":
            op = "add"
        if op == "add":
            name = r.choice([None, "soil A", "x"])
            _, raised = call(lambda: [o(r.choice(calcs), name) for _ in range(r.choice([1, 1, 3]))])
            d, raised2 = call(lambda: dict(names=[str(x) for x in o.names], refs=columns(o.refs), vals=columns(o.values)))
            tr.ev("add", k=k + 1, prof=prof[k], raised=raised or raised2, **(d or {"names": [], "refs": [], "vals": []}))
            continue
        at = r.randrange(len(axs) + 1)
        new = at == len(axs)
        ax = None if new else axs[at]
        zs_given = r.random()
        if op == "plot":
            style = r.choice(["indiv", "stats", "default"])
            if style != "indiv" and not prof[k] and o.ref_name == "time":
                style = "indiv"
            kw = {} if style == "default" else {"style": style}
            eff = ("stats" if prof[k] else "indiv") if style == "default" else style
            refs, vals = [c for c in np.atleast_2d(np.asarray(o.refs, float).T)], [c for c in np.atleast_2d(np.asarray(o.values, float).T)]
            refs = refs * len(vals) if len(refs) == 1 else refs
            before = outs_dig()
            stats = None
            if eff == "stats" and len(vals) != 2:
                stats, _ = call(lambda: o.calc_stats())
            got, raised = call(lambda: o.plot(ax, **kw) if zs_given < 0.5 else o.plot(ax=ax, **kw))
            med = {"ref": [], "vals": []}
            if not raised:
                if new:
                    axs.append(got)
                    known.append([])
                for a, b in zip(refs, vals):
                    ok = np.isfinite(a) & np.isfinite(b) if prof[k] else np.ones(len(a), bool)
                    known[at].append((between(a[ok]) if prof[k] else [], pick(len(a)), len(a)))
                if stats is not None:
                    med["ref"], med["vals"] = FS(stats["ref"]), FS(stats["median"])
                    i = pick(len(stats["ref"]))
                    known[at].append(([], i, len(stats["ref"])))
                    med = {"ref": FS(np.asarray(stats["ref"], float)[i]), "vals": FS(np.asarray(stats["median"], float)[i])}
            obs, r2 = ({}, "") if raised else call(axes_obs, axs[at], known[at])
            tr.ev("plot", k=k + 1, ax=at + 1, style=eff, new=new, raised=raised or r2, same=raised != "" or new or got is ax, median=med, kept=outs_dig() == before,
                  pts=[[j + 1 for j in q[1]] for q in known[at]] if at < len(known) else [], zs=[FS(q[0]) for q in known[at]] if at < len(known) else [],
                  xscale=o.xscale, yscale=o.yscale, xlabel=o.xlabel, ylabel=o.ylabel, obs=obs or {})
        else:
            p = r.choice(calcs).profile
            prop = r.choice(PROPS)
            vals = [1 / la.initial_shear_vel if prop == "slowness" else float(np.ravel(getattr(la, prop))[0]) for la in p]
            tops = [float(la.depth) for la in p]
            if not all(np.isfinite(vals)):
                continue
            before = dig([FS(getattr(p, q)) for q in PROPS])
            kw = r.choice([{}, {}, {"plot_kwds": {"color": "k", "label": "mine"}}, {"axis_kwds": {"xlim": (0, 7), "ylabel": "z"}}])
            got, raised = call(lambda: p.plot(prop, ax, **kw) if zs_given < 0.5 else p.plot(prop, ax=ax, **kw))
            if not raised:
                if new:
                    axs.append(got)
                    known.append([])
                known[at].append((between(tops), pick(len(tops)), len(tops)))
            obs, r2 = ({}, "") if raised else call(axes_obs, axs[at], known[at])
            tr.ev("prof", ax=at + 1, new=new, raised=raised or r2, same=raised != "" or new or got is ax, tops=FS(tops), vals=FS(vals),
                  kept=dig([FS(getattr(p, q)) for q in PROPS]) == before, label=["mine"] if "plot_kwds" in kw else [],
                  xlim=FS((got or ax).get_xlim()) if not raised else [], limits="axis_kwds" in kw,
                  pts=[[j + 1 for j in q[1]] for q in known[at]] if at < len(known) else [], zs=[FS(q[0]) for q in known[at]] if at < len(known) else [], obs=obs or {})
        if raised and new:
            plt.close("all")
            break
tr.close()
