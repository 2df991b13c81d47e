"""C15 histories of exports, displays and face generation on one live mesh: every export equals the one of a fresh mesh."""
import os

import numpy as np

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import Violation, bfs, require
from . import c14, c16, c18, c28
from .c11 import values

import cfdtools.cgns as cgns  # noqa: E402
import cfdtools.gmsh as gmsh  # noqa: E402
import cfdtools.ic3 as ic3  # noqa: E402
import cfdtools.ic3.readerV4  # noqa: E402
import cfdtools.ic3.writerV4  # noqa: E402
import cfdtools.vtk as vtk  # noqa: E402
import pyvista as pv  # noqa: E402

PROP, LEVEL = "C15", "model_checking"
ASSUMPTIONS = ["the caller does not change the mesh itself between the exports", "an export refused for a fresh mesh (overlapping marks, no cells for VTK, ...) must be refused at any time and leave the mesh usable"]
DEPTH = {"quick": 6, "thorough": 12}
EXPORTS = ["v2<", "v2>", "v3<", "v3>", "v4", "v4m", "vtk"]
EVENTS = EXPORTS + ["gen", "info", "detail", "new2", "new3", "new4", "newvtk", "late2", "late3", "late4", "latevtk", "extrude", "coords"]


def cube(n, marks=None):
    m = A.simple.Cube(*n).export_mesh()
    if marks is not None:
        for k in list(A.marks(m)):
            if k not in marks:
                m.remove_boco(k)
    return m


def built(cells, xyz, marks, perm=None, faces=False, **kw):
    m = A.make_mesh(S.blocks_of(cells, "type" if perm is None else "rtype", perm), xyz, marks)
    if faces:  # marks by face numbers, in a scattered order
        m.make_face_connectivity()
        b = sorted(A.mesh_faces(m, "boundary"))
        k = len(b)
        order = [b[(3 * i + 1) % k] for i in range(k)] if k % 3 else [b[i] for i in range(k)][::-1]
        cut = max(1, k // 2)
        for nm, l, t in (("first", order[:cut], "boundary"), ("second", order[cut:k - 1] if faces == 2 else order[cut:], "perio_cart")):
            if l:
                m.add_boco(A.make_mark(nm, "bdface", t, l, periodic_transform=np.array([1.0, 0.5, 0.0])))
    return m


def plain(m):
    """the periodic marks without any transformation"""
    for k in A.marks(m).values():
        k.properties.pop("periodic_transform", None)
    return m


def nodes_where(xyz, f):
    return [i for i, p in enumerate(xyz) if f(p)]


def withdata(m):
    nc, nn = m.ncell, m.nnode
    ds = A.data_mod.DataSet("cellaverage")
    for i, (n, shp) in enumerate((("RHO", ()), ("RHOU", (3,)), ("RHOE", ()), ("T", ()))):
        ds.add_data(n, values(nc, "d", shp, 0, i + 1))
    m.set_celldata(ds)
    dn = A.data_mod.DataSet("nodal")
    dn.add_data("Q", values(nn, "d", (), 0, 9))
    dn.add_data("W", values(nn, "d", (3,), 0, 8))
    m.set_nodedata(dn)
    m.set_params({"step": 12, "dt": 0.5, "time": 2.25})
    return m


def via(reader, data, ext, *a):
    p = U.tmp(ext)
    try:
        if callable(data):
            data(p)
        else:
            with open(p, "wb") as f:
                f.write(data)
        r = reader(p)
        r.read_data()
        return r.export_mesh()
    finally:
        if os.path.exists(p):
            os.unlink(p)


def from_vtk(cells, xyz):
    from .. import vtkgen as V
    return vtk.vtkMesh(pvmesh=V.grid(cells, xyz)).export_mesh()


def from_v4(src):
    return c14.read("4", c14.write("4", c14.read("3<", I.emit(src))))


def sources():
    hx, mix, g2, tet = S.hexgrid(2, 1, 1), S.mixedgrid(("hexa8", "pyra5")), S.grid2d(2, 2, ("quad4", "tri3")), S.hexgrid(1, 1, 1, "tetra4")
    x0 = lambda g: ("in", "bdnode", "boundary", nodes_where(g[1], lambda p: p[0] == 0))
    x1 = lambda g: ("out let", "bdnode", "perio_cart", nodes_where(g[1], lambda p: p[0] == max(q[0] for q in g[1])))
    y0 = lambda g: ("y0", "bdnode", "boundary", nodes_where(g[1], lambda p: p[1] == 0))
    low = lambda g: ("low", "bdnode", "boundary", nodes_where(g[1], lambda p: p[0] + p[1] <= 1))
    none = ("void", "bdnode", "boundary", [0])
    out = {"cube111": lambda: cube((1, 1, 1)), "cube221": lambda: cube((2, 2, 1)), "cube unmarked": lambda: cube((2, 1, 1), ()), "cube partial": lambda: cube((2, 1, 2), ("kmax", "imin")),
           "cube data": lambda: withdata(cube((2, 1, 1)))}
    for nm, g in (("hex", hx), ("mix", mix), ("2d", g2), ("tet", tet)):
        n = len(g[0])
        rev = [n - 1 - i for i in range(n)]
        out[nm + " bare"] = lambda g=g: built(*g, [])
        out[nm + " two"] = lambda g=g: built(*g, [x1(g), x0(g)])
        out[nm + " order"] = lambda g=g, r=rev: built(*g, [x0(g), none, x1(g)], perm=r)
        out[nm + " overlap"] = lambda g=g: built(*g, [x0(g), low(g)])
        out[nm + " faces"] = lambda g=g: built(*g, [], faces=1)
        out[nm + " somefaces"] = lambda g=g, r=rev: built(*g, [], perm=r, faces=2)
        out[nm + " data"] = lambda g=g: withdata(built(*g, [y0(g), x1(g)]))
        out[nm + " plain"] = lambda g=g: plain(built(*g, [x1(g), x0(g)]))
        out[nm + " plain faces"] = lambda g=g: plain(built(*g, [], faces=1))
        out[nm + " vtk"] = lambda g=g: from_vtk(*g)
    out["2d extruded"] = lambda: built(*g2, [x0(g2), x1(g2)]).export_extruded(extrude=[0.0, 0.5, 2.0])
    for v, e, lay in ((2, "<", 2), (3, ">", 1), (3, "<", 3)):
        m = c28.model(v, e, v == 3 and e == "<")
        out[f"ic3 v{v}{e}"] = lambda m=m: U.read(I.emit(m))
        for k, g in (("mix", mix), ("2d", g2)):
            out[f"ic3 v{v}{e} {k}"] = lambda g=g, v=v, e=e, lay=lay: U.read(I.emit(G.base(*g, v, e, rot=lay, layout=lay)))
    out["ic3 v4"] = lambda: from_v4(c28.model(3, "<", 0))
    for nm, (cells, xyz) in (("hex", S.hexgrid(1, 1, 1)), ("mix", mix), ("2d", g2)):
        dim = c16.R.DIM[cells[0][0]]
        nb = len(c16.bfaces(cells))
        gm = c16.model(cells, xyz, [i % 3 if i else None for i in range(nb)], [[1], [2], [1]], [(dim - 1, 1, "wall"), (dim - 1, 2, "in let")])
        out["msh " + nm] = lambda t=GM.v4(gm): via(gmsh.reader, t.encode(), ".msh")
        cm = c18.model(cells, xyz, [i % 3 if i else None for i in range(nb)], "face", 1)
        out["cgns " + nm] = lambda m=cm: via(cgns.cgnsMesh, lambda p: CG.write(p, m), ".cgns")
    return out


SRC = sources()


def grown(tier):
    """meshes of one and two glued cells, with a mark on every other boundary face and one holding a single node"""
    for i, c in enumerate(S.grow(1, S.T3)[0] + S.grow(1, S.T2)[0] + S.grow(2, S.T2)[0] + S.grow(2, S.T3)[0][:: 40 if tier == "quick" else 4]):
        xyz = S.fake_coords(1 + max(x for _, n in c for x in n))
        f = c16.bfaces(c)
        mk = [("half", "bdnode", "boundary", sorted(f[0])), ("void", "bdnode", "boundary", [f[-1][0]])] if i % 2 else []
        SRC[f"grown {i}"] = lambda c=c, xyz=xyz, mk=mk, i=i: built(c, xyz, mk, faces=0 if i % 2 else 1 + i // 2 % 2)


def bounds(tier):
    return (f"{len(SRC)} meshes (generated, given by cells, extruded, with data, marked by nodes/faces/not at all/twice, read from IC3 V2/V3/V4, GMSH, CGNS, VTK) x all histories of <= {DEPTH[tier]} events among "
            f"{len(EVENTS)} (7 exports, face generation, 2 displays, writers created early and used later, extrusion, reading the coordinates), states of the mesh merged when identical")


def cases(tier, seed):
    grown(tier)
    return [(n,) for n in SRC]


def vtk_file(w):
    p = U.tmp(".vtu")
    try:
        w.write_data(p)
        g = pv.read(p)
        return (g.points.tobytes(), g.cells.tobytes(), g.celltypes.tobytes())
    finally:
        if os.path.exists(p):
            os.unlink(p)


def ic3_file(w):
    p = U.tmp(".ic3")
    try:
        w.write_data(p)
        with open(p, "rb") as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)


def v4_file(w, sol=True):
    a, b = U.tmp(".h5"), U.tmp(".h5")
    try:
        w.write_data(a, b) if sol else w.write_data(a)
        return tuple(h5_dump(p) for p in ((a, b) if sol else (a,)))
    finally:
        for p in (a, b):
            if os.path.exists(p):
                os.unlink(p)


def h5_dump(p):
    import h5py
    out = []
    with h5py.File(p, "r") as f:
        at = lambda o: sorted((k, repr(np.asarray(v).tolist())) for k, v in o.attrs.items())
        out.append(("/", at(f)))
        f.visititems(lambda n, o: out.append((n, at(o), (str(o.dtype), o.shape, np.asarray(o[()]).tobytes() if o.dtype.kind != "O" else repr(o[()])) if hasattr(o, "dtype") else None)))
    return repr(sorted(out, key=lambda x: x[0]))


def make(kind, mesh):
    return {"2": lambda: ic3.writerV2.writer(mesh, "little"), "3": lambda: ic3.writerV3.writer(mesh, "big"), "4": lambda: ic3.writerV4.writer(mesh), "vtk": lambda: vtk.vtkMesh(mesh)}[kind]()


def emit(kind, w):
    return {"2": ic3_file, "3": ic3_file, "4": v4_file, "vtk": vtk_file}[kind](w)


def export(ev, mesh):
    if ev[:2] in ("v2", "v3"):
        return U.write(mesh, int(ev[1]), {"<": "little", ">": "big"}[ev[2]])
    if ev == "v4":
        return v4_file(ic3.writerV4.writer(mesh))
    if ev == "v4m":
        return v4_file(ic3.writerV4.writer(mesh), False)
    return vtk_file(vtk.vtkMesh(mesh))


def attempt(fn, *a):
    try:
        return ("done", fn(*a))
    except (Exception, SystemExit) as e:
        return ("refused", type(e).__name__)


_ref = {}


def reference(name, what):
    if (name, what) not in _ref:
        m = SRC[name]()
        _ref[name, what] = attempt(export, what, m) if what in EXPORTS else attempt(lambda: emit(what, make(what, m)))
    return _ref[name, what]


def geometry(m):
    """what the caller gave: coordinates, cells, data"""
    c = None if m._cell2node is None else A.elems_of(m._cell2node)
    d = [[(k, np.asarray(v).tobytes()) for k, v in (s.items() if s else ())] for s in (m._celldata, m._nodedata)]
    return repr((m.ncell, m.nnode, A.coords(m).tobytes(), c, d))


def kinds(m):
    """names, kinds and properties of the marks"""
    return {n: (k.type, repr(sorted((p, repr(v)) for p, v in k.properties.items()))) for n, k in A.marks(m).items()}


class Sys:
    def __init__(self, name):
        self.name = name
        self.mesh = SRC[name]()
        self.held = {}
        self.marks = kinds(self.mesh)
        self.geo = geometry(self.mesh)


def step(s, ev):
    m = s.mesh
    if ev in EXPORTS:
        got, want = attempt(export, ev, m), reference(s.name, ev)
        require(got == want, f"{s.name}: {ev} {'differs from' if got[0] == want[0] else f'is {got[0]}, not {want[0]} as'} the export of a fresh mesh"
                + (f" ({got[1]})" if got[0] == "refused" else ""))
    elif ev == "gen":
        if m._cell2node is not None:
            m.make_face_connectivity()
    elif ev in ("info", "detail"):
        m.printinfo(detailed=ev == "detail")
    elif ev.startswith("new"):
        k = ev[3:]
        s.held[k] = attempt(make, k, m)
        want = reference(s.name, k)
        require(not (want[0] == "done" and s.held[k][0] == "refused"), f"{s.name}: {ev} refused: {s.held[k][1]}")
    elif ev.startswith("late"):
        k = ev[4:]
        h = s.held[k]
        got = attempt(emit, k, h[1]) if h[0] == "done" else h
        want = reference(s.name, k)
        require(got == want, f"{s.name}: the file of a writer {k} created before {'differs' if got[0] == want[0] else f'is {got} instead of {want[0]}'}")
    elif ev == "extrude":
        if m._cell2node is not None and c16.R.DIM[A.elems_of(m._cell2node)[0][1]] == 2:
            attempt(m.export_extruded)
    elif ev == "coords":
        m.nodescoord(ndarray=True)
        m.nodescoord()
        m.list_boco_index()


def canon(s):
    m = s.mesh
    f = {k: (A.elems_of(d["face2node"]), None if d["face2cell"] is None else np.asarray(d["face2cell"].conn).tolist()) for k, d in m._faces.items()}
    b = [(n, k.geodim, k.type, k.index.type, [int(i) for i in k.index.list()], repr(sorted((p, repr(v)) for p, v in k.properties.items()))) for n, k in A.marks(m).items()]
    return repr((f, b, int(m.nface), sorted((k, h[0]) for k, h in s.held.items()), sorted(map(str, m._params)), sorted(m._cellprop)))


def run(case, ctx):
    name, = case

    def check(s, hist):
        require(geometry(s.mesh) == s.geo, f"{name}: nodes, cells or data of the mesh changed")
        now = kinds(s.mesh)
        require(all(now.get(k) == v for k, v in s.marks.items()), f"{name}: marks {s.marks} are now {now}")

    def menu(s):
        return [e for e in EVENTS if not e.startswith("late") or e[4:] in s.held]

    n = bfs(ctx, lambda: Sys(name), menu, step, canon, check, DEPTH[ctx.tier], name)
    ctx.count("traces_validated_against_impl", n)
    ctx.outcome(name, n)
    ctx.sample({"mesh": name, "states": n})
