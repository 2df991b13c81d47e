"""C36 data sets against a dictionary model, over all call histories on two live objects."""
import itertools

import numpy as np

from .. import adapter as A
from ..core import Violation, bfs, require

PROP, LEVEL = "C36", "model_checking"
ASSUMPTIONS = ["setting the representation after the number of degrees of freedom does not re-validate the latter"]
XS = ("nodal", "cellaverage", "spectralcell")
TS = {"DataSet": ("instant", "timeevol", "spectrum", "spectrogram"), "DataSetList": ("instant", "timeevol", "pod")}
DEPTH = {"quick": 3, "thorough": 5}


def bounds(tier):
    return f"all constructors (2 classes x 4 Xrep x 6 Trep x ndof 1,2) and all call histories to depth {DEPTH[tier]} over two objects of every class pair"


def cases(tier, seed):
    return [("ctor", 0, 0)] + [("hist", c, k) for c in itertools.product(TS, repeat=2) for k in range(12)] + [("stats", n, 0) for n in range(2, 9)]


def make(cls, **kw):
    return A.data_mod.DataSet(**kw) if cls == "DataSet" else A.data_mod.DataSetList(3, **kw)


def ctor(ctx):
    for cls, x, t, n in itertools.product(TS, XS + ("nosuch",), ("instant", "timeevol", "spectrum", "spectrogram", "pod", "zz"), (1, 2)):
        ok = x in XS and t in TS[cls] and (n == 1 or x == "spectralcell")
        try:
            d = make(cls, Xrep=x, Trep=t, ndof=n)
            got = True
        except Exception:
            got = False
        require(got == ok, f"{cls} Xrep={x} Trep={t} ndof={n} {'accepted' if got else 'refused'}")
        if ok:
            require((d.Xrep, d.Trep, d.ndof) == (x, t, n), "representation")
        ctx.state("ctor", cls, x, t, n)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")


VALS = [np.arange(4.0), np.arange(6).reshape(2, 3), np.zeros(3)]
COORD = [np.array([0.0, 1.0, 2.0]), np.array([0.0, 0.0, 0.0]), np.array([5.0])]


class Sys:
    def __init__(self, classes):
        self.cls = classes
        self.obj = [make(c) for c in classes]
        self.ref = [dict(data={}, time=None, list=[], geo={}, mesh=None) for _ in classes]


def step(s, ev):
    i, op, a = ev
    o, r = s.obj[i], s.ref[i]
    if op == "add":
        name, v, t = a
        o.add_data(name, VALS[v], **({} if t is None else {"time": t}))
        r["data"][name] = v
        r["time"] = t if t is not None else r["time"]
    elif op == "addlist":
        v, t = a
        o.add_datalist({"q": VALS[v]}, **({} if t is None else {"time": t}))
        r["list"].append((v, t))
    elif op == "nodes":
        o.set_nodes(*[COORD[k] if k is not None else None for k in a])
        for c, k in zip("xyz", a):
            if k is not None:
                r["geo"][c] = k
    elif op == "mesh":
        o.set_mesh(a)
        r["mesh"] = a
    elif op == "assign":
        o.data = {"z": VALS[a]}
        r["data"] = {"z": a}
    elif op == "ndof":
        try:
            o.ndof = a
            got = True
        except AssertionError:
            got = False
        require(got == (a == 1), f"ndof {a} {'accepted' if got else 'refused'} for cell averages")


def events(s):
    ev = []
    for i, c in enumerate(s.cls):
        if c == "DataSet":
            ev += [(i, "add", ("a", 0, None)), (i, "add", ("a", 1, 0.0)), (i, "add", ("b", 2, 0)), (i, "add", ("b", 0, 2.5)), (i, "assign", 2)]
        else:
            ev += [(i, "addlist", (0, None)), (i, "addlist", (1, 0.0)), (i, "addlist", (2, 1.5)), (i, "addlist", (0, np.array([0.0]))), (i, "addlist", (0, np.array([3.0])))]
        ev += [(i, "nodes", (0, None, None)), (i, "nodes", (1, 0, None)), (i, "nodes", (0, 1, 2)), (i, "nodes", (0, None, 0)), (i, "mesh", "m1"), (i, "ndof", 2), (i, "ndof", 1)]
    return ev


def check(s, hist):
    for o, r, c in zip(s.obj, s.ref, s.cls):
        if c == "DataSet":
            require(sorted(o.keys()) == sorted(r["data"]), f"names {list(o.keys())}")
            for k, v in r["data"].items():
                require(o[k] is VALS[v] or np.array_equal(o[k], VALS[v]), f"value of {k}")
            require(sorted(k for k, _ in o.items()) == sorted(r["data"]) and sorted(o.data) == sorted(r["data"]), "items")
            require(o._properties.get("time") == r["time"] and (r["time"] is None) == ("time" not in o._properties), f"time {o._properties} instead of {r['time']}")
        else:
            require(len(o._datalist) == len(r["list"]), "number of data dictionaries")
            for d, (v, t) in zip(o._datalist, r["list"]):
                require(np.array_equal(d["q"], VALS[v]) and ("time" in d) == (t is not None) and (t is None or np.all(d["time"] == t)), f"{sorted(d)} stored with time {t}")
        g = o.geoprop
        require(sorted(k for k in g if k != "mesh" and g[k] is not None) == sorted(r["geo"]), f"coordinates {sorted(g)} instead of {sorted(r['geo'])}")
        for k, v in r["geo"].items():
            require(np.array_equal(g[k], COORD[v]), f"coordinate {k}")
        require(g.get("mesh") == r["mesh"], "mesh")


def run(case, ctx):
    kind, a, k = case
    if kind == "ctor":
        return ctor(ctx)
    if kind == "stats":
        for imin, imax in itertools.product([None] + list(range(-a, a + 1)), repeat=2):
            t = np.cumsum(1.0 + np.arange(a) % 3)
            if len(t[imin:imax]) < 2:
                continue
            d = A.data_mod.DataSet(Trep="timeevol")
            d.add_data("time", t)
            m, sd, n = d.dtstats(imin, imax)
            w = np.diff(t[imin:imax])
            require(abs(m - sum(w) / len(w)) < 1e-12 and abs(sd - np.sqrt(sum((w - w.mean()) ** 2) / len(w))) < 1e-12 and n == len(w) + 1, f"statistics of {imin}:{imax}: {m, sd, n}")
            ctx.state("stats", a, imin, imax)
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
        return

    def init():
        s = Sys(a)
        e = events(s)
        for ev in e[k::12][:1]:
            step(s, ev)
        return s

    def canon(s):
        return tuple((o.ndof, o.Xrep, tuple(sorted(r["data"].items())), repr(r["list"]), tuple(sorted(r["geo"].items())), r["mesh"], r["time"],
                      type(o)._available_Xrep, type(o)._available_Trep) for o, r in zip(s.obj, s.ref))

    n = bfs(ctx, init, events, step, canon, check, DEPTH[ctx.tier], (a, k))
    ctx.count("traces_validated_against_impl", n)
    ctx.sample({"classes": a, "states": n})
