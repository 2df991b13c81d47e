"""C07 histories of scaling, morphing, face generation, exports and extrusion against a model of the coordinates."""
import itertools
import os
import shutil

import numpy as np

import cfdtools._cli as cli
import cfdtools.vtk as vtk
import pyvista as pv

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import bfs, require
from . import c15, c16, c18

PROP, LEVEL = "C07", "model_checking"
ASSUMPTIONS = ["maps given to morph do not modify the arrays they receive", "coordinates are compared to 4 units of rounding of the source precision"]
DEPTH = {"quick": 3, "thorough": 4}
SCALES = [(2.0, 0.5, -1.5), [1, 3, 1], np.array([1e-3, 1e6, 0.25]), (0, 1, 2)]
MAPS = {"swap": lambda x, y, z: (y, z, x), "bend": lambda x, y, z: (x + 0.25 * y * y, y * (1 + x * x), z - x * y), "shift": lambda x, y, z: [x + 1, y - 0.5, z * 1.0],
        "keep": lambda x, y, z: (x, y, z), "lift": lambda x, y, z: (x, y, np.sqrt(x * x + y * y) + z),
        "same": lambda x, y, z: (y, y, x)}
FEW = [("scale", 0), ("scale", 2), ("morph", "same"), ("morph", "bend"), ("gen",), ("v3",), ("extrude",)]  # third event
LAST = [("scale", 0), ("morph", "bend"), ("v3",)]
EVENTS = [("scale", i) for i in range(len(SCALES))] + [("morph", k) for k in MAPS] + [("gen",), ("v3",), ("vtk",), ("info",), ("extrude",), ("twin",)]


def bounds(tier):
    return (f"{len(c15.SRC)} meshes (generated, given, extruded, read from IC3 V2/V3/V4, GMSH, CGNS, VTK; 32 and 64-bit, integer coordinates) x all histories of <= {DEPTH[tier]} events ({len(EVENTS)} for the first two, 7 for the third, 3 for the fourth: scalings, maps, "
            "face generation, exports, display, extrusion, transformation of a second mesh of the same reader), each export compared with the one of a mesh given the mapped coordinates; command line: all formats x scalings x extrusions x outputs")


def single():
    """sources of other precisions"""
    g = S.hexgrid(2, 1, 1)

    def f32(e):
        h = pv.UnstructuredGrid(np.array([8, *g[0][0][1], 8, *g[0][1][1]]), np.array([12, 12], np.uint8), np.array(g[1], np.float32))
        h.points = (h.points / 3).astype(np.float32)
        return vtk.vtkMesh(pvmesh=h).export_mesh()

    def ints(e):
        m = A.make_mesh(S.blocks_of(g[0]), g[1])
        m.set_nodescoord_nd(np.array(g[1]).astype(int))
        return m

    def lists(e):
        m = A.make_mesh(S.blocks_of(g[0]), g[1])
        m.set_nodescoord_xyz(*[[p[i] for p in g[1]] for i in range(3)])
        return m

    return {"float32": lambda: f32(0), "integers": lambda: ints(0), "lists": lambda: lists(0)}


FILES = ["ic3v2", "ic3v3", "msh2", "msh4", "cgns", "cgns2", "vtu"]


def cases(tier, seed):
    c15.SRC.update(single())
    names = [n for n in c15.SRC if "overlap" not in n]
    return [(n, e) for n in names for e in range(len(EVENTS))] + [("reader", f) for f in FILES] + [("cli", f, o) for f in FILES[:-1] for o in ("v2", "v3", "vtk")]


def run(case, ctx):
    if case[0] == "cli":
        return commands(case, ctx)
    if case[0] == "reader":
        return twins(case, ctx)
    name, first = case

    def init():
        s = Sys(name)
        step(s, EVENTS[first])
        return s

    def menu(s):
        return EVENTS if s.n < 2 else FEW if s.n == 2 else LAST

    n = bfs(ctx, init, menu, step, canon, check, DEPTH[ctx.tier] - 1, name)
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl", n)
    ctx.sample({"mesh": name, "first": str(EVENTS[first]), "states": n})


def rest(m):
    """everything but the coordinates and the faces"""
    c = None if m._cell2node is None else A.elems_of(m._cell2node)
    d = [[(k, np.asarray(v).tobytes()) for k, v in (x.items() if x else ())] for x in (m._celldata, m._nodedata)]
    return repr((m.ncell, m.nnode, c, d, sorted((k, str(v)) for k, v in m._params.items())))


def faces(m):
    return repr([(k, A.elems_of(d["face2node"]), None if d["face2cell"] is None else np.asarray(d["face2cell"].conn).tolist()) for k, d in m._faces.items()]) + repr(
        [(n, k.geodim, k.type, [int(i) for i in k.index.list()]) for n, k in A.marks(m).items()])


class Sys:
    def __init__(self, name):
        self.name = name
        self.m = c15.SRC[name]()
        self.tol = 4 * (np.finfo(np.float32).eps if any(np.asarray(x).dtype == np.float32 for x in self.m.nodescoord()) else np.finfo(float).eps)
        self.x = [np.array(x, dtype=float) for x in self.m.nodescoord()]
        self.rest = rest(self.m)
        self.faces = faces(self.m)
        self.others = []  # (mesh, coordinates, rest, faces)
        self.hist = ()
        self.n = 0


def close(a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    require(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    s = np.max(np.abs(b)) if b.size else 0
    require(np.all(np.abs(a - b) <= 8 * tol * s), f"{what}: coordinates differ by {np.max(np.abs(a - b)) if a.size else 0}")


def pure(x, f):
    return [np.array(a, dtype=float) for a in f(*x)]


def step(s, ev):
    m, k = s.m, ev[0]
    s.n += 1
    if k == "scale":
        f = SCALES[ev[1]]
        g = f.copy() if not isinstance(f, tuple) else f
        require(m.scale(g) is None and list(g) == list(f), "the factors changed")
        s.x = [a * float(q) for a, q in zip(s.x, f)]
        s.hist += (ev,)
    elif k == "morph":
        before = [np.asarray(a).copy() for a in m.nodescoord()]
        given = m.nodescoord()
        m.morph(MAPS[ev[1]])
        require(all(np.array_equal(a, b) for a, b in zip(before, given)), "the arrays obtained before the operation changed")
        s.x = pure(s.x, MAPS[ev[1]])
        s.hist += (ev,)
    elif k == "gen":
        if m._cell2node is not None:
            m.make_face_connectivity()
        s.faces = None
    elif k in ("v3", "vtk"):
        def do(mesh):
            return U.write(mesh, 3) if k == "v3" else c15.vtk_file(vtk.vtkMesh(mesh))

        got = c15.attempt(do, m)
        f = c15.SRC[s.name]()
        ref0 = c15.attempt(do, f)
        f = c15.SRC[s.name]()
        f.set_nodescoord_xyz(*[np.array(a) for a in m.nodescoord()])
        want = c15.attempt(do, f)
        require(got[0] == want[0] == ref0[0] and (got[0] == "refused" or got[1] == want[1]), f"{ev}: the file differs from the one of a mesh with these coordinates ({got[0]}, {want[0]}, {ref0[0]})")
        if got[0] == "done":
            xyz = I.parse(got[1])["xyz"] if k == "v3" else np.frombuffer(got[1][0], dtype=np.float32 if len(got[1][0]) == 12 * m.nnode else float).reshape(-1, 3)
            close(xyz, np.stack(s.x, 1), s.tol if k == "v3" else max(s.tol, 1e-6), f"{ev}: file")
        if k == "v3":
            s.faces = None  # boundary marks are numbered by faces from now on
    elif k == "info":
        m.printinfo()
    elif k == "extrude":
        c = None if m._cell2node is None else A.elems_of(m._cell2node)
        if c and c16.R.DIM[c[0][1]] == 2 and all(b.nodebased() for b in A.marks(m).values()):
            n = m.export_extruded(extrude=[0.0, 1.0, 3.0])
            x = [np.concatenate([a] * 3) + (np.repeat([0.0, 1, 3], m.nnode) if i == 2 else 0) for i, a in enumerate(s.x)]
            s.others.append((n, x, rest(n), faces(n), "extruded mesh"))
    elif k == "twin":
        f = c15.SRC[s.name]()
        x = [np.array(a, dtype=float) for a in f.nodescoord()]
        f.scale((3.0, 3.0, 3.0))
        f.morph(MAPS["bend"])
        s.others.append((f, pure([3 * a for a in x], MAPS["bend"]), rest(f), faces(f), "mesh of the same source"))


def check(s, hist):
    close(np.stack([np.asarray(a) for a in s.m.nodescoord()]), np.stack(s.x), s.tol, f"{s.name}")
    require(rest(s.m) == s.rest, f"{s.name}: cells, data or parameters changed")
    if s.faces is None:
        s.faces = faces(s.m)
    require(faces(s.m) == s.faces, f"{s.name}: faces or marks changed")
    for m, x, r, f, what in s.others:
        close(np.stack([np.asarray(a) for a in m.nodescoord()]), np.stack(x), s.tol, f"{what} of {s.name}")
        require(rest(m) == r and faces(m) == f, f"{what} of {s.name} changed")


def canon(s):
    return (s.hist, faces(s.m), tuple(sorted(o[4] for o in s.others)))


def files():
    from . import c29
    c = c29.contents()
    out = {"ic3v2": c["ic3v2"], "ic3v3": c["ic3v3"], "msh2": c["msh2"], "cgns": c["cgns3"], "vtu": c["vtu"]}
    cells, xyz = S.grid2d(2, 2, ("quad4",))  # no cell has all its nodes on the boundary: the marks stay disjoint when extruded
    nb = len(c16.bfaces(cells))
    out["msh4"] = ("GMSH", GM.v4(c16.model(cells, xyz, [0] * nb, [[1]], [(1, 1, "wall"), (2, 1, "vol")])).encode(), xyz, len(cells))
    p = U.tmp(".cgns")
    CG.write(p, c18.model(cells, xyz, [0] * nb, "face", 0, physdim=2))
    out["cgns2"] = ("CGNS", open(p, "rb").read(), xyz, len(cells))
    os.unlink(p)
    return out


EXT = {"IC3": ".ic3", "GMSH": ".msh", "CGNS": ".cgns", "VTK": ".vtu"}


def twins(case, ctx):
    """meshes exported by one reader are independent of each other"""
    kind, data, xyz, ncell = files()[case[1]]
    p = U.tmp(EXT[kind])
    with open(p, "wb") as f:
        f.write(data)
    try:
        for ops in itertools.product(EVENTS[:len(SCALES) + len(MAPS)], repeat=2):
            if kind == "VTK":
                r = vtk.vtkMesh()
                r.read(p)
            else:
                r = A.api._fileformat_map[kind]["reader"](p)
                r.read_data()
            a, b = r.export_mesh(), r.export_mesh()
            x = np.stack([np.array(q, dtype=float) for q in b.nodescoord()])
            rb = rest(b), faces(b)
            for o in ops:
                a.scale(SCALES[o[1]]) if o[0] == "scale" else a.morph(MAPS[o[1]])
            require(np.array_equal(np.stack([np.asarray(q) for q in b.nodescoord()]), x) and (rest(b), faces(b)) == rb, f"{case[1]}: {ops} changed another mesh of the same reader")
            c = r.export_mesh()
            require(np.array_equal(np.stack([np.asarray(q) for q in c.nodescoord()]), x), f"{case[1]}: {ops} changed the meshes exported later by the reader")
            if kind == "VTK":
                require(np.array_equal(np.asarray(r.pyvista_grid.points, float).T, x), f"{case[1]}: {ops} changed the grid")
            ctx.state(case, ops)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
    finally:
        os.unlink(p)


FACT = [None, (2.0, 3.0, 0.5), (-1.0, 1.0, 1.0), (1e-3, 1e-3, 1e-3), (1.0, 1.0, 0.0)]


def commands(case, ctx):
    """--scale and --extrude of the converters"""
    _, fname, out = case
    kind, data, xyz, ncell = files()[fname]
    if kind == "IC3" and out == "vtk":
        return
    d = os.path.join(A.scratch(), f"s{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/o")
    here = os.getcwd()
    os.chdir(d)
    try:
        with open("in" + EXT[kind], "wb") as f:
            f.write(data)
        fn = {"v2": cli.cfdwrite_ic3v2, "v3": cli.cfdwrite_ic3v3, "vtk": cli.cfdwrite_vtk}[out]
        flat = fname in ("msh4", "cgns2")
        for ex, sc, last in itertools.product((None, 1, 3) if flat else (None,), FACT, (0, 1)):
            opt = ["--outpath", "o"] + ([] if ex is None else ["--extrude", str(ex)]) + ([] if sc is None else ["--scale"] + [repr(q) for q in sc])
            argv = opt + ["in" + EXT[kind]] if last else ["in" + EXT[kind]] + opt
            got = fn(argv)
            if out == "vtk":
                g = pv.read(got)
                x, n = np.array(g.points, float), g.n_cells
            else:
                p = I.parse(open(got, "rb").read())
                x, n = p["xyz"], p["ncv"]
            os.unlink(got)
            w = np.array(xyz, float)
            if ex is not None:
                w = np.concatenate([w + [0, 0, z] for z in np.linspace(0.0, 1.0, ex + 1)])
            w = w * (sc or (1, 1, 1))
            require(n == ncell * (ex or 1) and x.shape == w.shape, f"{argv}: {n} cells, {x.shape} coordinates")
            key = lambda a: a[np.lexsort(np.round(a, 9).T)]
            require(np.allclose(key(x), key(w), rtol=1e-6 if out == "vtk" else 1e-14, atol=1e-7 if out == "vtk" else 1e-15), f"{argv}: nodes are not the scaled ones")
            if ex is None:
                base = sorted(map(tuple, np.round(w, 6).tolist()))
                require(len(base) == len(xyz), f"{argv}: nodes")
            ctx.state(case, argv)
            ctx.outcome(out, ex, sc)
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
