"""C14 chains of IC3 conversions (V2, V3, V4) preserve mesh, zones and solution."""
import os

import h5py
import numpy as np

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from .. import refmesh as R
from ..core import Violation, require
from .c02 import nn
from .c11 import EDGE, values

import cfdtools.ic3.readerV4 as readerV4  # noqa: E402
import cfdtools.ic3.writerV4 as writerV4  # noqa: E402

PROP, LEVEL = "C14", "model_checking"
ASSUMPTIONS = ["version 4 stores the conservative variables RHO, RHOU, RHOE (all three or none), the statistics *_AVG, *_RMS, *_REY (scalars and vectors, upper-case "
               "names), step, time and the weights of the statistics; of the periodic data it stores the first three values: only these are compared once a chain "
               "went through version 4", "the name of the internal zone and the partition are free", "one degree of freedom per cell"]
SOURCES = []
EVENTS = ["2<", "2>", "3<", "3>", "4", "4m"]


def bounds(tier):
    return (f"{len(SOURCES)} first files (versions 2, 3 and 4) x all chains of length <= {3 if tier == 'quick' else 4} over {EVENTS} (4m: version 4 without solution file), "
            "executed without state merging; every intermediate file parsed independently and re-read; "
            "all ordered pairs of awkward zone names through version 4 and back")


def cases(tier, seed):
    SOURCES.clear()
    ms = [S.hexgrid(2, 1, 1), S.mixedgrid(("hexa8", "pyra5")), S.grid2d(2, 2, ("quad4", "tri3"))]
    ms += [(c, S.fake_coords(nn(c))) for c in S.grow(1, S.T3)[0]]
    if tier == "thorough":
        ms += [(c, S.fake_coords(nn(c))) for c in S.grow(2, S.T3)[0][seed % 40::40]] + [S.hexgrid(2, 2, 1, "prism6"), S.hexgrid(1, 1, 1, "tetra4")]
    for i, (cells, xyz) in enumerate(ms):
        for j, fields in enumerate(("all", "none", "cons", "stats", "other")):
            for layout, per in (((i + j) % 5, False), ((i + 2 * j + 1) % 5, True)):
                SOURCES.append((cells, xyz, fields, layout, per, 2 + (i + j) % 2, "<>"[(i + layout) % 2]))
    return [(k,) for k in range(len(SOURCES))] + [("names", i) for i in range(len(G.NASTY))]


def model(src):
    cells, xyz, fields, layout, per, v, e = src
    m = G.base(cells, xyz, v, e, rot=layout, layout=layout, periodic=per)
    n = m["ncv"]
    cons = [("cell", "RHO", 1, values(n, "d", (), 0, 1)), ("cell", "RHOU", 1, values(n, "d", (3,), 1, 2)), ("cell", "RHOE", 1, values(n, "d", (), 2, 3))]
    stats = [("cell", "P_AVG", 1, values(n, "d", (), 1, 4)), ("cell", "U_AVG", 1, values(n, "d", (3,), 0, 5)), ("cell", "RHO_RMS", 1, values(n, "d", (), 0, 6)),
             ("cell", "U_REY", 1, values(n, "d", (3,), 0, 7))]
    other = [("cell", "T", 1, values(n, "d", (), 0, 8)), ("node", "P", 1, values(len(m["xyz"]), "d", (), 0, 9))]
    m["data"] = {"all": other[:1] + cons + stats + other[1:], "none": [], "cons": cons, "stats": stats, "other": cons[:1] + other}[fields]
    m["params"] = {"STEP": 0 if layout == 1 else 41 + layout, "DT": 0.5, "TIME": 0.0 if layout == 2 else 0.1 * (layout + 1)}
    if fields in ("all", "stats"):
        m["params"].update({"P_AVG_WGT": 0.3, "U_AVG_WGT": 1 / 3})
    return m


def read(kind, data):
    if kind[0] != "4":
        return U.read(data)
    a, b = U.tmp(".h5"), U.tmp(".h5")
    with open(a, "wb") as f:
        f.write(data[0])
    if data[1] is not None:
        with open(b, "wb") as f:
            f.write(data[1])
    try:
        r = readerV4.reader(a) if data[1] is None else readerV4.reader(a, b)
        r.read_data()
        require(r.ncell == r.export_mesh().ncell, "ncell of the reader")
        return r.export_mesh()
    finally:
        os.unlink(a)
        if data[1] is not None:
            os.unlink(b)


def write(kind, mesh):
    if kind[0] != "4":
        return U.write(mesh, int(kind[0]), {"<": "little", ">": "big"}[kind[1]])
    a, b = U.tmp(".h5"), U.tmp(".h5")
    w = writerV4.writer(mesh)
    try:
        if kind == "4":
            w.write_data(a, b)
            return open(a, "rb").read(), open(b, "rb").read()
        w.write_data(a)
        return open(a, "rb").read(), None
    finally:
        for x in (a, b):
            if os.path.exists(x):
                os.unlink(x)


def check_file(kind, data, m):
    """the file itself, parsed independently"""
    if kind[0] != "4":
        p = I.parse(data)
        require(p["faces"] == [tuple(f) for f in m["faces"]] and [tuple(c) for c in p["cvofa"]] == [tuple(c) for c in m["cvofa"]], f"{kind}: faces in the file")
        require(p["xyz"].tobytes() == m["xyz"].tobytes(), "coordinates in the file")
        zz = {z[0]: z[1:4] for z in p["zones"] if z[1] != 6}
        require(zz == {z[0]: z[1:4] for z in m["zones"] if z[1] != 6}, f"{kind}: zones {zz}")
        i = [z for z in p["zones"] if z[1] == 6]
        require([z[2:4] for z in i] == [z[2:4] for z in m["zones"] if z[1] == 6], f"{kind}: internal zone {i}")
        return
    import io
    with h5py.File(io.BytesIO(data[0]), "r") as f:
        require((f.attrs["no_count"], f.attrs["fa_count"], f.attrs["cv_count"]) == (len(m["xyz"]), len(m["faces"]), m["ncv"]), "V4 counts")
        off = f["Boundaries/offsets"][()].tolist()
        lab = [x.decode() for x in f["Boundaries/labels"][()]]
        kinds = f["Boundaries/kinds"][()].tolist()
        require(len(off) == len(lab) + 1 == len(kinds) + 1 and off[0] == 0 and off[-1] == len(m["faces"]), f"V4 offsets {off} labels {lab}")
        z = {l: (k, a, b - 1) for l, k, a, b in zip(lab, kinds, off, off[1:]) if k != 6}
        require(z == {t[0]: t[1:4] for t in m["zones"] if t[1] != 6}, f"V4 zones {z}")
        sz = f["Connectivities/Face/noofa_i"][()].tolist()
        val = f["Connectivities/Face/noofa_v"][()].tolist()
        require(sz == [len(x) for x in m["faces"]] and val == [y for x in m["faces"] for y in x], "V4 faces")
        require(f["Connectivities/Face/cvofa"][()].tolist() == [y for c in m["cvofa"] for y in c], "V4 cvofa")
        require(f["coordinates"][()].tobytes() == m["xyz"].tobytes(), "V4 coordinates")


def through4(m):
    """what version 4 keeps of a model"""
    d = {n: f for f in m["data"] for n in [f[1]] if f[0] == "cell"}
    cons = [d[k] for k in ("RHO", "RHOU", "RHOE")] if all(k in d for k in ("RHO", "RHOU", "RHOE")) else []
    st = [f for k, f in d.items() if any(x in k for x in ("_AVG", "_RMS", "_REY"))]
    keep = {k: v for k, v in m["params"].items() if k in ("STEP", "TIME") or (st and k.endswith("_WGT"))}
    return {**m, "data": cons + st, "params": keep, "zones": [z[:4] + (z[4][:3],) for z in m["zones"]], "part": None}


def mesh4(m):
    """what a version 4 mesh file alone keeps"""
    return {**through4(m), "data": [], "params": {}}


def judge(mesh, m, v4, where):
    mm = {**m, "part": None}
    if v4:
        mm["zones"] = []
    got = {n: b for n, b in A.marks(mesh).items()}
    require(mesh.ncell == m["ncv"] and mesh.nnode == len(m["xyz"]), f"{where}: {mesh.nnode} nodes {mesh.ncell} cells")
    require(np.asarray(mesh.nodescoord(ndarray=True), "f8").tobytes() == m["xyz"].tobytes(), where + ": coordinates")
    rows = A.all_faces(mesh)
    require([(rows[i][1], rows[i][2]) for i in range(len(rows))] == [(tuple(f), tuple(c)) for f, c in zip(m["faces"], m["cvofa"])], where + ": faces")
    want = {z[0]: z for z in m["zones"] if z[1] != 6}
    ext = {n: b for n, b in got.items() if b.type != "internal"}
    require(sorted(ext) == sorted(want), f"{where}: zones {sorted(ext)}")
    require(len(got) - len(ext) == 1, f"{where}: {len(got) - len(ext)} internal zones")
    for n, (_, k, a, b, rd) in want.items():
        require(ext[n].type == G.KN[k] and [int(i) for i in ext[n].index.list()] == list(range(a, b + 1)), f"{where}: zone {n} {ext[n].type} {ext[n].index.list()}")
        per = ext[n].properties.get("periodic_transform")
        per = [0.0] * 16 if per is None else [float(x) for x in per]
        n3 = 3 if v4 else 16
        require(per[:n3] == [float(x) for x in rd[:n3]], f"{where}: periodic data of {n}: {per}")
    G.check_data(mesh, {**m, "data": m["data"]}, where + ": ")
    for k, x in m["params"].items():
        y = mesh._params.get(k.lower())
        require(y is not None and y == x, f"{where}: {k}={x} became {y!r}")


def named(case, ctx):
    """all ordered pairs of awkward zone names, the first one of a periodic zone, through version 4 and back"""
    cells, xyz = S.hexgrid(2, 1, 1)
    a = G.NASTY[case[1]]
    for b in G.NASTY + ["labels ", "A", "a/b", "/lead", "a//c", "a.b", ".."]:
        if b == a:
            continue
        for per in (False, True):
            m = G.base(cells, xyz, 3, "<", rot=1, layout=4)
            z = [t for t in m["zones"] if t[1] != 6]
            m["zones"] = [(a, 2) + z[0][2:4] + ((1.0, 2.0, 3.0) + (0.0,) * 13,), (b, 3 if per else 1) + z[1][2:4] + ((4.0, 5.0, 6.0) + (0.0,) * 13 if per else (0.0,) * 16,)] + \
                [("third",) + t[1:] for t in z[2:]] + [t for t in m["zones"] if t[1] == 6]
            kind, data, m2 = "3<", I.emit(m), m
            for ev in ("4m", "3<", "4", "2>"):
                ctx.state(case, b, per, ev)
                ctx.count("transitions")
                try:
                    data = write(ev, read(kind, data))
                    m2 = m2 if ev[0] != "4" else (through4(m2) if ev == "4" else mesh4(m2))
                    check_file(ev, data, m2)
                    judge(read(ev, data), m2, True, f"zones {a!r}, {b!r} through {ev}")
                except Exception as x:
                    ctx.fail(f"zones {a!r} and {b!r}{' (periodic)' if per else ''}, {ev}: {type(x).__name__}: {getattr(x, 'msg', x)}", f"names:{ev}")
                    break
                ctx.count("traces_validated_against_impl")
                kind = ev


def run(case, ctx):
    if case[0] == "names":
        return named(case, ctx)
    src = SOURCES[case[0]]
    m0 = model(src)
    depth = 3 if ctx.tier == "quick" else 4
    start = ("%d%s" % (src[5], src[6]), I.emit(m0), m0, False, ())
    stack = [start]
    while stack:
        kind, data, m, v4, hist = stack.pop()
        try:
            judge(read(kind, data), m, v4, f"after {hist}")
        except Violation as x:
            ctx.fail(x.msg, f"{src[2]}:{'-'.join(hist)}", {"history": hist, "source": repr(src)[:800]})
            continue
        except Exception as x:
            ctx.fail(f"after {hist} ({src[2]}): reading raised {type(x).__name__}: {x}", f"{src[2]}:{'-'.join(hist)}")
            continue
        ctx.state(case, hist)
        ctx.outcome(kind, sorted(f[1] for f in m["data"]), v4)
        if len(hist) >= depth:
            continue
        for ev in EVENTS:
            h2 = hist + (ev,)
            try:
                d2 = write(ev, read(kind, data))
                m2 = m if ev[0] != "4" else (through4(m) if ev == "4" else mesh4(m))
                check_file(ev, d2, m2)
            except Exception as x:
                ctx.fail(f"after {h2} ({src[2]}): {type(x).__name__}: {x}", f"{src[2]}:{'-'.join(h2)}", {"history": h2, "source": repr(src)[:800]})
                continue
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
            stack.append((ev, d2, m2, v4 or ev[0] == "4", h2))
    ctx.sample({"source": src[2:], "events": EVENTS, "depth": depth})
