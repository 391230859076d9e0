"""C25: crustal-model tables fetched, loaded and simplified; mean effective stress; regional profiles."""
import gzip
import http.server
import json
import os
import shutil
import tempfile
import threading
import urllib.parse
import warnings

import numpy as np
from pystrata import generic, tools
from rec import F, FS, Trace, call, logu, n, rng

tr = Trace()
r = rng("generic")
tmp = tempfile.mkdtemp(prefix="c25-")


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        v, raised = call(fn)
    return v, raised, any(issubclass(x.category, UserWarning) for x in w)


def rows(tol):
    m = r.choice([1, 2, 3, 5, 8, 14, 30 if r.random() < 0.3 else 4])
    step = r.choice([5, 1, 0.3, None])
    z, v, rho = [0.0], [], []
    for _ in range(m - 1):
        z.append(z[-1] + (step or r.choice([r.uniform(0.5, 60), 2.5])))
    cur = r.uniform(120, 900)
    for _ in range(m):
        k = r.random()
        if k < 0.15:
            pass
        elif k < 0.55:
            cur *= 1 + r.uniform(-1.3, 1.3) * tol
        elif k < 0.7:
            cur *= 1 + r.uniform(0.2, 0.9) * tol       # drifts slowly
        else:
            cur *= r.choice([r.uniform(1.05, 1.5), r.uniform(0.7, 1)])
        v.append(cur)
        rho.append(r.choice([r.uniform(1500, 2700), 1800]))
    return z, v, rho


def document(z, v, rho, wt, status="success"):
    more = [{"location": {"water_table_depth": wt + 7}, "profile": {"vs": [9.0] * len(z), "density": [1.0] * len(z)}}]
    res = [{"location": {"latitude": 1, "longitude": 2, "water_table_depth": wt},
            "profile": {"vs": v, "vp": [2 * x for x in v], "density": rho}}]
    return {"status": status, "request": {"depths": {"depth_vector": z}}, "response": {"results": res + (more if r.random() < 0.2 else [])}}


class Page(http.server.BaseHTTPRequestHandler):
    body, asked = b"", []

    def do_GET(self):
        q = urllib.parse.parse_qs(urllib.parse.urlparse(self.path).query)
        Page.asked = q.get("location", [""])[0].split(",") + q.get("depths", [""])[0].split(",")
        self.send_response(200)
        self.end_headers()
        self.wfile.write(Page.body)

    def log_message(self, *a):
        pass


def load(path, tol0):
    before = open(path, "rb").read()
    simplify = r.random() < 0.75
    tol = r.choice([0.02, tol0, 0, 0.1])
    p = r.choice([str, lambda x: __import__("pathlib").Path(x)])(path)
    kw = {}
    if simplify or r.random() < 0.5:
        kw["simplify"] = simplify
    if tol != 0.02 or r.random() < 0.5:
        kw["simplify_tol"] = tol

    def go():
        df, wt = generic.load_ncm_profile(p, **kw)
        c = {k: FS(df[x].values) for k, x in (("z", "depth"), ("v", "vel_shear"), ("w", "unit_wt"), ("stress", "mean_eff_stress"), ("th", "thickness"))}
        df.loc[:, "vel_shear"] = -1.0       # what was loaded belongs to the caller
        return c, F(wt)
    v, raised, _ = warned(go)
    tr.ev("load", raised=raised, simplify=simplify, tol=F(tol), t=v[0] if v else {}, wt=v[1] if v else "nan", kept=open(path, "rb").read() == before)


server = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Page)
threading.Thread(target=server.serve_forever, daemon=True).start()
try:
    for case in range(n(110, 900)):
        tr.new(case)
        path = os.path.join(tmp, f"p{case % 5}.json")       # files are written again with something else
        if os.path.exists(path):
            os.remove(path)
        tol = r.choice([0.02, 0.05, logu(r, 0.001, 0.2)])
        z, v, rho = rows(tol)
        wt = r.choice([0, 3.2, r.uniform(0, 60), 1e4])
        table = {"z": FS(z), "v": FS(v), "rho": FS(rho), "wt": F(wt), "bad": ""}
        kind = r.choice(["plain", "gzip", "gzip", "fetch", "bad"])
        if kind in ("plain", "gzip"):
            text = json.dumps(document(z, v, rho, wt))
            with (gzip.open if kind == "gzip" else open)(path, "wt") as f:
                f.write(text)
            tr.ev("file", raised="", table=table)
        elif kind == "bad":
            how = r.choice(["empty", "text"])
            with open(path, "wt") as f:
                f.write(json.dumps({**document(z, v, rho, wt), "response": {"results": []}}) if how == "empty" else "not a profile")
            tr.ev("file", raised="", table={**table, "bad": how})
        else:
            status = r.choice(["success", "sucess", "success", "error", "busy"])
            Page.body = json.dumps(document(z, v, rho, wt, status)).encode()
            gz = r.random() < 0.5
            args = [round(r.uniform(30, 45), 3), round(r.uniform(-125, -100), 3)]
            grid = [r.choice([0, 10]), r.choice([5, 2.5]), r.choice([100, 5000])]
            generic.NCM_BASE_URL = f"http://127.0.0.1:{server.server_port}/ncm"
            kw = dict(zip(("depth_start", "depth_step", "depth_end"), grid))
            if gz is False or r.random() < 0.5:
                kw["gzip_output"] = gz
            _, raised = call(lambda: generic.fetch_ncm_profile(args[0], args[1], path, **kw))
            w = os.path.exists(path)
            tr.ev("fetch", raised=raised, status=status, written=w, gz=gz, compressed=w and open(path, "rb").read(2) == b"\x1f\x8b", table=table,
                  lat=F(args[0]), lon=F(args[1]), start=F(grid[0]), step=F(grid[1]), end=F(grid[2]), asked=[F(float(x)) for x in Page.asked])
        if os.path.exists(path):
            for _ in range(r.randint(1, 3)):
                load(path, tol)
        for _ in range(2):
            z, _, rho = rows(0.02)
            w = [x * 9.81 / 1000 for x in rho]
            if r.random() < 0.25:
                w[r.randrange(len(w))] = r.choice([9.0, 31, 120.0, 4])
            wt, k0 = r.choice([0, r.uniform(0, 40), 500]), r.choice([None, 0.5, 0.3, 1, r.uniform(0.2, 2)])
            a, b = r.choice([(z, w), (np.array(z), np.array(w))])
            s, raised, wn = warned(lambda: FS(tools.calc_mean_eff_stress(a, b, wt) if k0 is None else tools.calc_mean_eff_stress(a, b, wt, k0)))
            tr.ev("stress", raised=raised, t={"z": FS(z), "v": FS(z), "w": FS(w)}, wt=F(wt), k0=F(0.5 if k0 is None else k0), s=s or [], warned=wn)
        g = r.choice(["California", "Japan", "california", "JAPAN", "japan", "Italy", "Cal"])
        vs30 = r.choice([250, 850, 249.0, 851, r.uniform(250, 850), r.uniform(100, 1500)])
        z = r.choice([0, 10.0, r.uniform(0, 500), "arr"])
        d = [0.0, 3.0, r.uniform(5, 40), r.uniform(50, 900)][:r.choice([1, 4])] if z == "arr" else z
        if r.random() < 0.5 and z == "arr":
            d = np.array(d)

        def kea():
            df = generic.kea16_profile(d, vs30, g)
            return FS(df.index.values), FS(df["vs_median"].values), FS(df["std_vs_ln_units"].values)
        k, raised, wn = warned(kea)
        tr.ev("kea16", raised=raised, region=g.lower(), vs30=F(vs30), z=FS(np.atleast_1d(d)), warned=wn, **dict(zip(("index", "v", "sd"), k or ([], [], []))))
finally:
    server.shutdown()
    shutil.rmtree(tmp)
tr.close()
