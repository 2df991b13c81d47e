"""C28 removal of named data: through the converters and on the mesh, every subset of names."""
import itertools
import os
import shutil

import numpy as np

import cfdtools._cli as cli

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from ..core import bfs, require
from .c11 import check_file, values

PROP, LEVEL = "C28", "model_checking"
ASSUMPTIONS = ["face fields are not part of the mesh data and are not written", "output in the byte order of the machine"]
CELL = [("P", "d", ()), ("rho n", "d", ()), ("U", "d", (3,)), ("TAU", "d", (3, 3))]
NODE = [("P", "d", ()), ("X", "d", (3,)), ("id", "d", ())]
ABSENT = "none"
NAMES = ["P", "P2", "PX", "p", "XP", "P_AVG", "P RMS", "P*", "0"]  # names close to each other
CMDS = {2: cli.cfdwrite_ic3v2, 3: cli.cfdwrite_ic3v3}
GRID = S.hexgrid(2, 1, 1)
DEPTH = {"quick": 4, "thorough": 6}


def bounds(tier):
    return (f"files of {len(CELL)} cell and {len(NODE)} node fields (one name at both places; V3 also with 2 values per cell and integers), V2/V3 in both byte orders to V2/V3: all subsets of cell names "
            f"x all subsets of node names, the absent name included; all pairs (thorough: all subsets) of {len(NAMES)} names that resemble each other; argument positions, repetitions, orders; all histories of {DEPTH[tier]} removals on a mesh, each followed by an export")


def model(v, e, variant):
    m = G.base(*GRID, v, e, rot=1, layout=2)
    data = []
    for loc, fs in (("cell", CELL), ("node", NODE)):
        n = m["ncv"] if loc == "cell" else len(m["xyz"])
        for j, (nm, ch, shp) in enumerate(fs):
            nd = 1 + variant if loc == "cell" else 1
            if variant and nm in ("rho n", "id"):
                ch, nd = "q", nd
            data.append((loc, nm, nd, values(n * nd, ch, shp, j % 2, j + 1 + (loc == "cell"))))
    m["data"] = data
    return m


def cases(tier, seed):
    out = []
    for v, e, o, var in itertools.product((2, 3), "<>", (2, 3), (0, 1)):
        if var and (v == 2 or o == 2):
            continue
        cs = [c for r in range(len(CELL) + 2) for c in itertools.combinations([x[0] for x in CELL] + [ABSENT], r)]
        out += [("cli", v, e, o, var, c) for c in cs]
    out += [("args", v, v2) for v in (2, 3) for v2 in (2, 3)]
    out += [("api", v, first) for v in (2, 3) for first in range(len(EVENTS))]
    out.append(("nodata",))
    out += [("close", v, o, loc, first) for v in (2, 3) for o in (2, 3) for loc in ("cell", "node") for first in NAMES]
    return out


def convert(o, argv):
    out = CMDS[o](argv)
    with open(out, "rb") as f:
        data = f.read()
    os.unlink(out)
    return data


def without(m, cells, nodes):
    gone = {("cell", c) for c in cells} | {("node", n) for n in nodes}
    return {**m, "data": [d for d in m["data"] if d[:2] not in gone]}


def same_rest(a, b):
    """two parsed files differ by their fields only"""
    for k in a:
        if k not in ("data", "order"):
            x, y = a[k], b[k]
            require(x.tobytes() == y.tobytes() if isinstance(x, np.ndarray) else x == y, f"{k} changed with the removal")


def run(case, ctx):
    d = os.path.join(A.scratch(), f"r{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        {"cli": through, "args": arguments, "api": api, "nodata": nodata, "close": close}[case[0]](case, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def judge(o, argv, m, cells, nodes, ref, ctx):
    data = convert(o, argv)
    try:
        check_file(data, without(m, cells, nodes), o, "little")
        same_rest(I.parse(data), ref)
    except Exception as x:
        x.args = (f"{argv}: {x}",) + x.args[1:]
        if hasattr(x, "msg"):
            x.msg = f"{argv}: {x.msg}"
        raise
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl")


def through(case, ctx):
    _, v, e, o, var, cells = case
    m = model(v, e, var)
    with open("a.ic3", "wb") as f:
        f.write(I.emit(m))
    src = open("a.ic3", "rb").read()
    os.makedirs("o")
    base = ["a.ic3", "--outpath", "o"]
    plain = convert(o, base)
    check_file(plain, m, o, "little")
    ref = I.parse(plain)
    names = [x[0] for x in NODE] + [ABSENT]
    for r in range(len(names) + 1):
        for nodes in itertools.combinations(names, r):
            argv = base + (["--remove-cell-data", *cells] if cells else []) + (["--remove-node-data", *nodes] if nodes else [])
            judge(o, argv, m, cells, nodes, ref, ctx)
            ctx.state(case, nodes)
            ctx.outcome(v, o, var, tuple(sorted(cells)), nodes)
    require(open("a.ic3", "rb").read() == src, "the input changed")
    ctx.sample({"removed cell data": cells, "versions": (v, o)})


def arguments(case, ctx):
    _, v, o = case
    m = model(v, "<", 0)
    with open("a.ic3", "wb") as f:
        f.write(I.emit(m))
    os.makedirs("o")
    ref = I.parse(convert(o, ["a.ic3", "--outpath", "o"]))
    out = ["--outpath", "o"]
    for cells in (["P"], ["U", "P"], ["TAU", "TAU", "P"], ["X", "P", "id"], ["none", "U"]):
        cd, nd = ["--remove-cell-data", *cells], ["--remove-node-data", *cells]
        for argv, c, n in ((out + ["a.ic3"] + cd, cells, ()), (["a.ic3"] + cd + out, cells, ()), (out + cd + ["--", "a.ic3"], cells, ()), (["a.ic3"] + nd + out, (), cells),
                           (out + nd + ["--", "a.ic3"], (), cells), (["a.ic3"] + nd + cd + out, cells, cells), (["a.ic3"] + cd + nd + ["--info"] + out, cells, cells),
                           (["a.ic3"] + out + cd + ["--check"], cells, ()), (["a.ic3"] + out + ["--remove-face-data"] + cells, (), ())):
            judge(o, argv, m, c, n, ref, ctx)
            ctx.state(case, argv)


EVENTS = [("cell", "P"), ("node", "P"), ("cell", "U"), ("node", "X"), ("cell", "none"), ("node", "none"), ("cell", "X")]


class Sys:
    def __init__(self, v):
        from .. import ic3util as U
        self.v, self.m = v, model(v, "<", v == 3)
        self.mesh = U.read(I.emit(self.m))
        self.last = None


def step(s, ev):
    loc, name = ev
    got = (s.mesh.pop_celldata if loc == "cell" else s.mesh.pop_nodedata)(name)
    want = [d for d in s.m["data"] if d[:2] == ev]
    require((got is None) == (not want) and (got is None or G.same(got, want[0][3])), f"{ev}: {got!r} returned")
    s.m = {**s.m, "data": [d for d in s.m["data"] if d[:2] != ev]}


def check(s, hist):
    from .. import ic3util as U
    G.check_data(s.mesh, s.m) if s.m["data"] and any(d[0] == "cell" for d in s.m["data"]) else None
    check_file(U.write(s.mesh, s.v, "little"), s.m, s.v, "little")


def api(case, ctx):
    _, v, first = case

    def init():
        s = Sys(v)
        step(s, EVENTS[first])
        return s

    n = bfs(ctx, init, lambda s: EVENTS, step, lambda s: tuple(d[:2] for d in s.m["data"]), check, DEPTH[ctx.tier] - 1, ("api", v))
    ctx.count("traces_validated_against_impl", n)
    ctx.sample({"first": EVENTS[first], "states": n})


def nodata(case, ctx):
    from .. import ic3util as U
    for names in ((), ("P",), ("P", "U", "P")):
        m = A.simple.Cube(2, 1, 1).export_mesh()
        for n in names:
            require(m.pop_celldata(n) is None and m.pop_nodedata(n) is None, f"{n} returned by a mesh without data")
        got = U.write(m, 3)
        require(got == U.write(A.simple.Cube(2, 1, 1).export_mesh(), 3), "the file changed")
        ctx.state("nodata", names)
        ctx.count("transitions")


def close(case, ctx):
    """names that are a part, a prefix, another spelling or a pattern of another name"""
    _, v, o, loc, first = case
    m = G.base(*GRID, v, "<", rot=1, layout=2)
    n = m["ncv"] if loc == "cell" else len(m["xyz"])
    m["data"] = [(loc, nm, 1, values(n, "d", (), j % 2, j + 1)) for j, nm in enumerate(NAMES)]
    with open("a.ic3", "wb") as f:
        f.write(I.emit(m))
    os.makedirs("o")
    ref = I.parse(convert(o, ["a.ic3", "--outpath", "o"]))
    rest = NAMES[NAMES.index(first) + 1:]
    for r in range(2 if ctx.tier == "quick" else len(rest) + 1):
        for more in itertools.combinations(rest, r):
            gone = (first,) + more
            judge(o, ["a.ic3", "--outpath", "o", f"--remove-{loc}-data", *gone], m, gone if loc == "cell" else (), gone if loc == "node" else (), ref, ctx)
            ctx.state(case, gone)
