"""C15: logic trees made in every way, iterated (also several iterations at once)."""
import gzip
import json
import os
import struct

import numpy as np

from pystrata.logic_tree import Alternative, Branch, LogicTree, Node, Realization
from rec import F, Trace, WORK, call, histories, n, rng

tr = Trace()
r = rng("trees")


def val(x):
    if isinstance(x, str):
        return {"t": "s", "v": x}
    if isinstance(x, list):
        return {"t": "list", "v": [str(y) for y in x]}
    if isinstance(x, tuple):
        return {"t": "t", "v": [str(y) for y in x]}
    return {"t": "n", "v": F(x)}


def ref(x):
    if isinstance(x, list):
        return {"t": "l", "v": [val(y) for y in x]}
    if isinstance(x, float):
        return {"t": "f", "v": F(x)}
    return val(x)


def params(p):
    return json.dumps(p, sort_keys=True)


POOLS = [["a", "b", "c"], [1, 2, 5], [0.5, 1.0, 0.25], ["none", 0.1, 0.2], [("x", "y"), ("z",), ("x",)], ["a", 1, 2.5], ["1", 1, "1.0"]]


def mk_tree():
    size = r.choice(["usual"] * 25 + ["many nodes", "many alternatives"])
    names = r.sample(["foo", "bar", "baz", "qux", "Foo bar", "a", "b"], {"usual": r.randint(1, 4), "many nodes": 7, "many alternatives": 2}[size])
    pools = {k: r.choice(POOLS) for k in names}
    nodes = []

    def cond(me):
        d = {}
        for k in names:
            if r.random() < 0.35:
                w = r.choice(pools[k])
                if isinstance(w, tuple):
                    if via_json:
                        continue
                    d[k] = w
                else:
                    d[k] = r.choice([w, w, r.sample([x for x in pools[k] if not isinstance(x, tuple)], 2) if r.random() < 0.6 else w])
        return d

    for k in names:
        alts = []
        for _ in range({"usual": r.choice([1, 2, 2, 3, 4]), "many nodes": r.choice([1, 2, 2]), "many alternatives": r.choice([3, 12])}[size]):
            a = {"value": r.choice(pools[k])}
            if r.random() < 0.7:
                a["weight"] = r.choice([0, 0.3, 0.5, 1, 2, 1e-3, 0.0, 1e-9])
            if r.random() < 0.3:
                a["requires"] = cond(k)
            if r.random() < 0.3:
                a["excludes"] = cond(k)
            if r.random() < 0.3:
                a["params"] = {"p": r.randint(1, 9), "q": [1, "s"]}
            alts.append(a)
        nodes.append({"name": k, "alts": alts})
    return nodes


def record(d, how, make):
    """Make the tree and look at its nodes."""
    rec = [{"name": x["name"], "alts": [{"value": val(a["value"]), "weight": F(a.get("weight", 1)), "params": params(a.get("params", {})),
                                        "requires": [[k, ref(v)] for k, v in a.get("requires", {}).items()],
                                        "excludes": [[k, ref(v)] for k, v in a.get("excludes", {}).items()]} for a in x["alts"]]} for x in d]
    t, raised = call(make)
    kw = {}
    if not raised:
        kw, raised = call(lambda: dict(names=[x.name for x in t.nodes], options=[[val(v) for v in x.options] for x in t.nodes],
                                       weights=[[F(a.weight) for a in t[x.name].alts] for x in t.nodes]))
    tr.ev("tree", how=how, tree=rec, raised=raised, **(kw or {}))
    return None if raised else t


def iterate(t, its):
    """Turn the iterations of a tree in any order."""
    live = list(range(len(its)))
    for _ in range(300):
        if not live:
            break
        k = r.choice(live)

        def nxt():
            b = next(its[k], None)
            if b is None:
                return None
            dd = b.as_dict()
            ks = [x.name for x in t.nodes]
            ok = all(x in b for x in ks) and "nonesuch" not in b
            return dict(values=[val(b.value(x)) for x in ks] if ok else [], keys=list(dd), dict=[val(v) for v in dd.values()],
                        weight=F(b.weight), params=[params(b[x].params) for x in ks])

        v, raised = call(nxt)
        if raised:
            tr.ev("branch", it=k + 1, raised=raised)
            break
        if v is None:
            tr.ev("end", it=k + 1, raised="")
            live.remove(k)
            if r.random() < 0.1:
                its[k] = iter(t)
                live.append(k)
        else:
            tr.ev("branch", it=k + 1, raised="", **v)


def generated(ts):
    """Every tree of the generating model."""
    def num(w):
        return struct.unpack(">d", struct.pack(">ii", *w))[0]

    def plain(v):
        return [plain(x) for x in v["v"]] if v["t"] == "l" else v["v"]
    for case, (g,) in enumerate(ts):
        tr.new(case)
        d = [{"name": x["name"], "alts": [{"value": plain(a["value"]), "weight": num(a["weight"]),
                                           **{c: {k: plain(v) for k, v in a[c]} for c in ("requires", "excludes") if a[c]}} for a in x["alts"]]} for x in g]
        t = record(d, "objects", lambda: LogicTree([Node(x["name"], [Alternative(**a) for a in x["alts"]]) for x in d]))
        if t is not None:
            iterate(t, [iter(t)])


gen = histories()
if gen:
    generated(gen)
for case in range(0 if gen else n(400, 4000)):
    tr.new(case)
    how = r.choice(["objects", "objects", "list", "json", "gz", "path"])
    via_json = how in ("json", "gz", "path")
    d = mk_tree()

    def make():
        if how == "objects":
            ns = []
            for x in d:
                plain = all(set(a) == {"value"} for a in x["alts"])
                ns.append(Node(x["name"], [a["value"] for a in x["alts"]] if plain else [Alternative(**a) for a in x["alts"]]))
            return LogicTree(ns)
        if how == "list":
            return LogicTree.from_list(json.loads(json.dumps(d)) if not any(isinstance(v, tuple) for x in d for a in x["alts"]
                                                                           for c in ("requires", "excludes") for v in a.get(c, {}).values()) else d)
        path = os.path.join(WORK, "tree.json" + (".gz" if how == "gz" else ""))
        with (gzip.open if how == "gz" else open)(path, "wt") as fp:
            json.dump(d, fp)
        if how == "path":
            from pathlib import Path
            return LogicTree.from_json(Path(path))
        return LogicTree.from_json(path)

    t = record(d, how, make)
    if t is None:
        continue
    # looking things up, and branches of the user's own
    for _ in range(r.choice([0, 1, 3])):
        k = r.randrange(len(d))
        node = t[d[k]["name"]]
        x = r.choice(r.choice(POOLS + [[a["value"] for a in d[k]["alts"]]] * 3))
        if isinstance(x, float) and r.random() < 0.3:
            x *= 1 + 1e-7

        def look():
            a = node.by_value(x)
            return [i + 1 for i, b in enumerate(node.alts) if b is a] or [0]
        v, raised = call(look)
        tr.ev("byvalue", node=k + 1, ref=ref(x), raised=raised, got=v[0] if v else 0, absent=t["nonesuch"] is None)
    for _ in range(r.choice([0, 0, 2])):
        pick = [r.randrange(len(x["alts"])) for x in d]
        alts = [node[i] for node, i in zip(t.nodes, pick)]
        b = Branch({x.name: Realization(x.name, a.value, a.weight, a.params, a.requires, a.excludes) for x, a in zip(t.nodes, alts)})
        v, raised = call(lambda: (bool(t.is_valid(b)), [bool(a.is_valid(b)) for a in alts]))
        tr.ev("choose", pick=[i + 1 for i in pick], raised=raised, valid=v[0] if v else False, each=v[1] if v else [])
    k = r.randrange(len(d))
    if r.random() < 0.3 and not any(isinstance(a["value"], tuple) for a in d[k]["alts"]):
        v, raised = call(lambda: t.nodes[k].to_xarray("case", "weight"))
        tr.ev("xarray", node=k + 1, raised=raised, dims=[str(x) for x in v.dims] if v is not None else [], name=str(v.name) if v is not None else "",
              weights=[F(x) for x in v.values] if v is not None else [],
              values=[str(x) for x in v.coords["case"].values] if v is not None else [], want=[str(x) for x in np.array([a["value"] for a in d[k]["alts"]])])
    iterate(t, [iter(t), iter(t)] if r.random() < 0.3 else [iter(t)])
    if r.random() < 0.2:        # the tree is edited, and iterated again
        for _ in range(r.randint(1, 2)):
            k = r.randrange(len(d))
            i, alts, what = r.randrange(len(d[k]["alts"])), d[k]["alts"], r.choice(["weight", "value", "add"])
            new = {"value": r.choice(r.choice(POOLS))} if what != "weight" else {"weight": r.choice([0, 0.25, 3])}
            if what == "add":
                alts.append(new)
                t[d[k]["name"]].alts.append(Alternative(**new))
            else:
                alts[i] = {**alts[i], **new}
                setattr(t[d[k]["name"]].alts[i], what, new[what])
        t = record(d, "edited", lambda: t)
        if t is not None:
            iterate(t, [iter(t)])
tr.new("miller")
for k in range(2, 2 if gen else 11):
    v, raised = call(lambda: Node.from_miller_rice("m", k))
    tr.ev("miller", n=str(k), raised=raised, values=[F(a.value) for a in v] if v else [], weights=[F(a.weight) for a in v] if v else [])
tr.close()
