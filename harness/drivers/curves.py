"""C04: construct, change and evaluate curves; load every published table."""
import numpy as np
from pystrata import site
from rec import F, FS, Trace, call, histories, logu, n, rng

tr = Trace()
r = rng("curves")
KIND = {"mod_reduc": site.ModulusReductionCurve, "damping": site.DampingCurve}


def table(param, m=None):
    m = m or r.choice([1, 2, 3, 5, 11, 20])
    x = sorted({logu(r, 1e-7, 0.3) for _ in range(m)})
    x = r.choice([x, list(np.logspace(-6, -1.5, num=max(m, 2)))])
    hi = 1.3 if param == "mod_reduc" else 0.6       # beyond the default limits now and then
    y = sorted(r.uniform(-0.02, hi) for _ in x)
    y = y[::-1] if param == "mod_reduc" else y
    if r.random() < 0.2:
        r.shuffle(y)
    return x, y


def queries(x):
    x = sorted(x)
    q = list(x) + [logu(r, 1e-8, 1) for _ in range(8)] + [0, 1e-9, 1e-12, x[0] / 3, x[-1] * 3, x[0], x[-1], 10.0]
    q += [a * 1.0000001 for a in x[:3]] + [np.sqrt(a * b) for a, b in zip(x, x[1:])]
    return r.sample(q, min(len(q), 10))


Q = [0, 1e-9, 3e-6, 1e-5, 2e-5, 1e-4, 2e-4, 1e-3, 2e-3, 7e-3, 0.5]


def generated(hs):
    """Every history of the generating model, evaluated at its end."""
    for case, h in enumerate(hs):
        tr.new(case)
        cv = None
        for i, o in enumerate([*h, {"op": "eval"}]):
            x, y = ([float(v) for v in o.get(k, [])] for k in "xy")
            op = o["op"]
            if op == "new":
                cv, raised = call(lambda: KIND[o["param"]]("c", x, y))
            elif op == "eval":
                v, raised = call(lambda: cv(Q))
                if i == len(h) or raised:
                    tr.ev("eval", s=FS(Q), r=FS(v) if not raised else [], raised=raised)
                continue
            else:
                def go():
                    if x:
                        cv.strains = x
                    if y:
                        cv.values = y
                _, raised = call(go)
            tr.ev(op, x=FS(x), y=FS(y), raised=raised, ox=FS(cv.strains) if cv else [], oy=FS(cv.values) if cv else [],
                  **({"param": o["param"], "deflim": True, "lo": "0", "hi": "1"} if op == "new" else {}))


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(250, 3000)):
    tr.new(case)
    param = r.choice(list(KIND))
    x, y = table(param)
    deflim = r.random() < 0.6
    lim = (r.choice([0, 0.05, 0.2]), r.choice([0.15, 0.49, 1]))
    arg = r.choice([list, np.array, tuple])
    if len(x) < 2:
        x, y = table(param, 3)
    order = r.choice(["up", "up", "up", "down", "any"])      # the points may be tabulated in any order

    def tab(x, y):
        pts = list(zip(x, y))
        if order == "down":
            pts.reverse()
        if order == "any":
            r.shuffle(pts)
        return [p[0] for p in pts], [p[1] for p in pts]

    x, y = tab(x, y)
    cv, raised = call(lambda: KIND[param]("c", arg(x), arg(y)) if deflim else KIND[param]("c", arg(x), arg(y), limits=lim))
    tr.ev("new", param=param, x=FS(x), y=FS(y), deflim=deflim, lo=F(lim[0]), hi=F(lim[1]), raised=raised,
          ox=FS(cv.strains) if cv else [], oy=FS(cv.values) if cv else [])
    if raised:
        continue
    for _ in range(r.randint(2, 8)):
        op = r.choice(["eval", "eval", "eval", "scalar", "strains", "values", "both"])
        if op == "eval":
            q = queries(x)
            v, raised = call(lambda: cv(r.choice([np.array, list])(q)))
            tr.ev("eval", s=FS(q), r=FS(v) if not raised else [], raised=raised)
        elif op == "scalar":
            for q in queries(x)[:3]:
                v, raised = call(lambda: cv(q))
                tr.ev("eval", s=[F(q)], r=FS(v) if not raised else [], raised=raised)
        else:
            nx, ny = table(param, len(x)) if op != "both" else table(param)
            if op == "both":
                nx, ny = tab(nx, ny)
            if op == "both" and len(nx) < 2:
                continue
            if op != "both" and len(nx) != len(x):
                continue

            def go():
                if op in ("strains", "both"):
                    cv.strains = arg(nx)
                if op in ("values", "both"):
                    cv.values = arg(ny)

            _, raised = call(go)
            x = nx if op != "values" else x
            y = ny if op != "strains" else y
            tr.ev(op, x=FS(nx), y=FS(ny), raised=raised, ox=FS(cv.strains), oy=FS(cv.values))
        if raised:
            break

for k in range(0 if gen else n(30, 200)):
    tr.new(f"family{k}")
    param = r.choice(list(KIND))
    x, _ = table(param, r.choice([3, 5]))
    if len(x) < 2:
        continue
    ys = np.array([[r.random() for _ in range(4)] for _ in x])
    s = r.choice(queries(x))
    v, raised = call(lambda: KIND[param]("", x, ys)(s))
    tr.ev("family", param=param, x=FS(x), y=[FS(a) for a in ys], s=F(s), r=FS(v) if not raised else [], raised=raised)

if gen:
    tr.close()
    raise SystemExit
tr.new("published")
names, raised = call(site.known_published_curves)
tr.ev("names", names=list(names or []), raised=raised)
for nm in names or []:
    for param in KIND:
        if param not in site.PUBLISHED_CURVES[nm]:
            continue
        tr.new(f"{nm}/{param}")
        for again in range(2 if r.random() < 0.4 else 1):      # also after a loaded curve has been edited
            cv, raised = call(site.NonlinearCurve.from_published, nm, param)
            tr.ev("published", name=nm, param=param, raised=raised, x=FS(cv.strains) if cv else [], y=FS(cv.values) if cv else [],
                  kind=cv.param if cv else "")
            if cv is not None:
                _, raised = call(r.choice([lambda: setattr(cv, "values", cv.values * 0.5), lambda: setattr(cv, "strains", cv.strains * 3),
                                           lambda: cv.values.__setitem__(0, 0.123)]))
                if raised:
                    tr.ev("published", name=nm, param=param, raised=raised, x=[], y=[], kind="")
    if len(site.PUBLISHED_CURVES[nm]) == 3:
        other = r.choice([None, "EPRI (93), PI=10", nm])
        st, raised = call(lambda: site.SoilType.from_published("s", 18, nm, other) if other else site.SoilType.from_published("s", 18, nm))
        for param, name in (("mod_reduc", nm), ("damping", other or nm)):
            cv = getattr(st, param, None)
            tr.ev("published", name=name, param=param, raised=raised, x=FS(cv.strains) if cv else [], y=FS(cv.values) if cv else [],
                  kind=cv.param if cv else "")
        if r.random() < 0.5 and not raised:
            _, raised = call(lambda: [setattr(x, "values", x.values * 0.5) for x in (st.mod_reduc, st.damping)])
tr.close()

