"""C11 field data, parameters and weights survive IC3 V2/V3 reading and writing exactly."""
import itertools

import numpy as np

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import explore_choices, require
from .c02 import nn

PROP, LEVEL = "C11", "model_checking"
ASSUMPTIONS = ["several degrees of freedom and integer fields belong to version 3; all cell fields of a file have the same number of degrees of freedom",
               "field names are distinct within a location; face fields may be present but are not part of the mesh data",
               "statistics weights are the real parameters named *_WGT"]

MESHES = [("hexa", S.hexgrid(2, 1, 1)), ("tri12", S.grid2d(2, 3, ("tri3",))), ("quad", S.grid2d(1, 1, ("quad4",))), ("tetra", S.hexgrid(1, 1, 1, "tetra4")),
          ("tet1", ((("tetra4", (0, 1, 2, 3)),), [(0.0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)])), ("mixed", S.mixedgrid(("hexa8", "prism6")))]
# (location, letter, shape) and names
FIELDS = [("node", "d", ()), ("node", "d", (3,)), ("node", "q", ()), ("cell", "d", ()), ("cell", "q", ()), ("cell", "d", (3,)), ("cell", "d", (3, 3)),
          ("face", "d", ()), ("face", "d", (3,))]
NAMES = [["P", "rho n", "T" * 52], ["U", "GRADP", "u" * 51], ["ID", "node_gb_index", "k"], ["P", "RHO", "rho_AVG"], ["ICELL", "q", "part id"],
         ["RHOU", "U", "U_RMS"], ["TAU", "UU_REY", "t" * 52], ["FA", "fb", "fc"], ["FV", "fw", "fx"]]
EDGE = [0.0, -0.0, 1e-310, -1.7e308, float("inf"), float("nan"), 0.1, 1 / 3]
PARAMS = [{"STEP": 7, "DT": 0.125, "TIME": 1e-3}, {"STEP": 0, "DT": 0.0, "TIME": 0.0}, {"STEP": 2**40, "DT": 1e-300, "TIME": -0.1},
          {"STEP": 3, "DT": 0.1, "TIME": 2.0, "RHO_AVG_WGT": 1 / 3}, {"STEP": 3, "DT": 0.1, "TIME": 2.0, "U_WGT": 0.7, "P_WGT": 0.0, "long_name_of_a_WGT": 1e9}]


def bounds(tier):
    return ("6 meshes (2 with equal node/cell counts or node/face counts) x all choices of 0..2 fields of each of 9 kinds, versions in/out, byte orders in/out, "
            f"1..3 degrees of freedom, 5 parameter sets, value patterns, field order: all configurations with at most {4 if tier == 'quick' else 5} departures from the default; "
            "each one read from an independent file, written, read again, and also built from scratch, written and read")


def plan(choose):
    c = dict(version=2 + choose(2))
    c["mesh"] = choose(len(MESHES))
    c["nf"] = [(1, 0, 2)[choose(3)] if i in (0, 3) else (0, 1, 2)[choose(3)] for i in range(len(FIELDS))]
    c["ndof"] = 1 + choose(3)
    c["endian"] = "<>"[choose(2)]
    c["outv"] = 3 - choose(2)
    c["oute"] = ("little", "big")[choose(2)]
    c["params"] = choose(len(PARAMS))
    c["values"] = choose(3)
    c["names"] = choose(3)
    c["order"] = choose(3)
    return c


def feasible(c):
    if c["version"] == 2 or c["outv"] == 2:
        if c["ndof"] > 1 or c["nf"][4] or c["nf"][2]:
            return False
    return True


def cases(tier, seed):
    plans = []
    for _, c in explore_choices(plan, 4 if tier == "quick" else 5):
        if feasible(c) and c not in plans[-1:]:
            plans.append(c)
    step = 30 if tier == "quick" else 100
    return [plans[i:i + step] for i in range(0, len(plans), step)]


def values(n, ch, shp, pattern, salt):
    k = int(np.prod((n,) + shp, dtype=int))
    if ch == "q":
        a = np.arange(k, dtype="i8") * (3 if pattern == 0 else -(2**41) - 1) + salt
        if pattern == 2 and k:
            a[0], a[-1] = 2**63 - 1, -2**63
    else:
        a = np.arange(k) * 0.37 + salt + 1 / 3
        if pattern == 1:
            a = np.array([EDGE[(i + salt) % len(EDGE)] for i in range(k)])
        elif pattern == 2:
            a = np.full(k, 1.0 * salt)
    return a.reshape((n,) + shp)


def fields(c, m):
    n = {"node": len(m["xyz"]), "face": len(m["faces"]), "cell": m["ncv"]}
    out = []
    for i, (loc, ch, shp) in enumerate(FIELDS):
        for j in range(c["nf"][i]):
            nd = c["ndof"] if loc == "cell" else 1
            out.append((loc, NAMES[i][(j + c["names"]) % 3], nd, values(n[loc] * nd, ch, shp, c["values"], 1 + i + 10 * j)))
    seen, res = set(), []
    for f in out:  # names are distinct within a location
        if f[:2] not in seen:
            seen.add(f[:2])
            res.append(f)
    return [res, res[::-1], res[1::2] + res[::2]][c["order"]]


def dataset(m, loc):
    d = A.data_mod.DataSet("nodal" if loc == "node" else "cellaverage")
    for l, name, nd, a in m["data"]:
        if l == loc:
            if nd > 1:
                d.Xrep = "spectralcell"
                d.ndof = nd
            d.add_data(name, a.copy())
    return d


def check_file(data, m, v, e, params=True):
    p = I.parse(data)
    require(p["version"] == v and p["endian"] == {"little": "<", "big": ">"}[e], "format of the file")
    got = {(l, n): (nd, a) for l, n, nd, a in p["data"]}
    want = {(l, n): (nd, a) for l, n, nd, a in m["data"] if l != "face"}
    require(len(got) == len(p["data"]), "a field was written twice")
    extra = [k for k in got if k not in want]
    require(all(k[0] == "face" for k in extra) and all(k in got for k in want), f"fields {sorted(got)} written instead of {sorted(want)}")
    for k, (nd, a) in want.items():
        require(G.same(got[k][1], a), f"{k} written differently ({got[k][1].dtype}{got[k][1].shape} for {a.dtype}{a.shape})")
        require(v == 2 or k[0] != "cell" or got[k][0] == nd, f"{k}: {got[k][0]} degrees of freedom instead of {nd}")
    require(p["xyz"].tobytes() == m["xyz"].tobytes(), "coordinates")
    if params:
        for k, x in m["params"].items():
            y = {kk.lower(): vv for kk, vv in p["params"].items()}.get(k.lower())
            require(y == x and type(y) is type(x), f"parameter {k}={x} written as {y!r}")


def one(c, ctx):
    name, (cells, xyz) = MESHES[c["mesh"]]
    m = G.base(cells, xyz, c["version"], c["endian"], rot=c["order"], layout=2)
    m["params"] = dict(PARAMS[c["params"]])
    m["data"] = fields(c, m)
    sys_e = {"<": "little", ">": "big"}
    # reader, then writer
    mesh = U.read(I.emit(m))
    G.check_read(mesh, m)
    out = U.write(mesh, c["outv"], c["oute"])
    check_file(out, m, c["outv"], c["oute"])
    G.check_read(U.read(out), {**m, "part": None, "zones": [z if z[1] != 6 else ("internal-domain",) + z[1:] for z in m["zones"]]}, where="second reading: ")
    # fields given by a caller
    mm = A.make_mesh(S.blocks_of(cells), xyz)
    mm.set_celldata(dataset(m, "cell"))
    mm.set_nodedata(dataset(m, "node"))
    mm.set_params({k.lower(): x for k, x in m["params"].items()})
    out = U.write(mm, c["outv"], c["oute"])
    check_file(out, m, c["outv"], c["oute"])
    back = U.read(out)
    G.check_data(back, m, where="built then read: ")
    ctx.count("traces_validated_against_impl", 3)
    ctx.count("transitions", 5)
    ctx.outcome([(l, n, nd, a.tobytes()) for l, n, nd, a in m["data"]], m["params"])


def run(case, ctx):
    for c in case:
        if ctx.state(sorted(c.items())):
            ctx.attempt(one, c, ctx, sig=f"V{c['version']}-{c['outv']}", what=repr(c))
    ctx.sample(case[0])
