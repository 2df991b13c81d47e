"""C19 process-wide state: all histories of operations in one process; every operation gives what it gives in a fresh process."""
import contextlib
import hashlib
import io
import logging
import os
import re
import shutil
import sys

os.environ.setdefault("VTK_SMP_BACKEND_IN_USE", "Sequential")
import h5py
import matplotlib.pyplot  # noqa: F401
import numpy as np
import pyvista as pv
import scipy.spatial  # noqa: F401
import scipy.special  # noqa: F401

from .. import adapter as A
from ..core import child, require

PROP, LEVEL = "C19", "model_checking"
ASSUMPTIONS = ["a fresh process is a process forked from one where only the base modules of the package have been imported and no operation run; third-party modules are already loaded",
               "the caller hands an operation nothing which an earlier one has modified (aliasing of the caller's own objects belongs to C15, C36)", "sequential use of the process"]
CASE_TIMEOUT = 600


def bounds(tier):
    return ("; ".join(f"all sequences of <= {MENUS[k][1]} operations among {len(MENUS[k][0])}" for k in TIERS[tier])
            + " (readers, truncated and refused files, generator, faces, extrusion, writers of every format, series, probes, commands, registration), each in a forked process; "
            "the objects kept from earlier operations are looked at again after each one")


# ------------------------------------------------------------------------------------------- inputs (written by a separate process)


def make_inputs():
    from .. import cgnsref as CG
    from .. import gmshref as GM
    from .. import ic3gen as G
    from .. import ic3ref as I
    from .. import meshspace as S
    from .. import vtkgen as V
    from . import c16, c18, c28
    d = {}
    p = os.path.join(A.scratch(), f"x{os.getpid()}")

    def ends(cells, xyz):
        """the two opposite sides only, so that every writer takes the marks"""
        top = max(x[0] for x in xyz)
        return [0 if all(xyz[n][0] == 0 for n in f) else 1 if all(xyz[n][0] == top for n in f) else None for f in c16.bfaces(cells)]

    def gm(cells, xyz, names, order):
        dim = c16.R.DIM[cells[0][0]]
        return c16.model(cells, xyz, ends(cells, xyz), [[1], [2]], [(dim - 1, 1, names[0]), (dim - 1, 2, names[1])])

    d["msh2"] = GM.v2(gm(*S.mixedgrid(("hexa8", "pyra5")), ("wall", "in let"), 0)).encode()
    d["msh4"] = GM.v4(gm(*S.hexgrid(2, 1, 1), ("side", "wall"), 0)).encode()
    d["msh2d"] = GM.v4(gm(*S.grid2d(2, 1, ("quad4", "tri3")), ("wall", "low"), 0)).encode()
    d["mshbad"] = d["msh4"][: len(d["msh4"]) * 2 // 3]
    for nm, (cells, xyz), mode in (("cgns", S.hexgrid(1, 1, 1, "prism6"), "face"), ("cgnsb", S.hexgrid(2, 1, 1), "vertex")):
        m = c18.model(cells, xyz, ends(cells, xyz), mode if mode in c18.MODES else c18.MODES[1], 1)
        CG.write(p, m)
        d[nm] = open(p, "rb").read()
    with h5py.File(p, "a") as f:  # a second base: refused
        base = [k for k in f if f[k].attrs.get("label") in (b"CGNSBase_t", "CGNSBase_t") or b"CGNSBase" in bytes(np.asarray(f[k].attrs.get("label", b"")).tobytes())]
        for k in base:
            for z in list(f[k]):
                if b"Zone_t" in bytes(np.asarray(f[k][z].attrs.get("label", b"")).tobytes()):
                    f.copy(f[k][z], f[k], name="Second")
    d["cgnsbad"] = open(p, "rb").read()
    os.unlink(p)
    d["ic3v2"] = I.emit(c28.model(2, "<", 0))
    d["ic3v3"] = I.emit(c28.model(3, ">", 1))
    d["ic3mix"] = I.emit(G.base(*S.mixedgrid(("hexa8", "pyra5")), 3, "<", rot=1, layout=3))
    d["ic3bad"] = d["ic3v3"][: len(d["ic3v3"]) // 2]
    cells, xyz = S.hexgrid(2, 1, 1)
    for k, perm in (("vtu0", None), ("vtu1", [1, 0])):
        g = V.grid(cells, xyz, perm)
        g.cell_data["P"] = np.array([1.0, 2.0])[perm or [0, 1]]
        g.cell_data["U"] = np.arange(6.0).reshape(2, 3)[perm or [0, 1]]
        g.field_data["TimeValue"] = np.array([0.5 if perm else 0.25])
        g.save(p + ".vtu")
        d[k] = open(p + ".vtu", "rb").read()
    cells, xyz = S.hexgrid(1, 2, 3)
    g = V.grid(cells, xyz, [3, 1, 0, 2, 5, 4])
    g.cell_data["P"] = np.array([1.0, 2.0, 5.0, 3.0, 4.0, 0.0])
    g.save(p + ".vtu")
    d["column"] = open(p + ".vtu", "rb").read()
    os.unlink(p + ".vtu")
    return d


IN = {}


def inputs():
    """built by a child so that this process stays as after the first import"""
    if not IN:
        IN.update(child(make_inputs))
    return IN


# ------------------------------------------------------------------------------------------------------------------ processes


# ------------------------------------------------------------------------------------------------------------------ operations


def put(name, key):
    with open(name, "wb") as f:
        f.write(IN[key])
    return name


def get(name):
    with open(name, "rb") as f:
        return f.read()


def h5(name):
    out = []
    with h5py.File(name, "r") as f:
        at = lambda o: sorted((k, repr(np.asarray(v).tolist())) for k, v in o.attrs.items())
        out.append(("/", at(f)))
        f.visititems(lambda n, o: out.append((n, at(o), (str(o.dtype), o.shape, np.asarray(o[()]).tobytes() if o.dtype.kind != "O" else repr(o[()])) if hasattr(o, "dtype") else None)))
    return sorted(out, key=lambda x: x[0])


def look(m):
    """everything a mesh object holds"""
    cells = A.elems_of(m._cell2node) if m._cell2node is not None else None
    faces = [(k, A.elems_of(d["face2node"]), None if d["face2cell"] is None else np.asarray(d["face2cell"].conn).tolist()) for k, d in sorted(m._faces.items())]
    marks = [(n, b.geodim, b.type, b.index.type, [int(np.asarray(i).item()) for i in b.index.list()], sorted((k, repr(v)) for k, v in b.properties.items())) for n, b in A.marks(m).items()]
    data = [[(k, np.asarray(v).tobytes()) for k, v in (s.items() if s else ())] for s in (m._celldata, m._nodedata)]
    return (m.ncell, m.nnode, m.nface, cells, A.coords(m).tobytes(), faces, marks, data, sorted((k, repr(v)) for k, v in m._params.items()))


def load(name, key, faces=True, mod=None):
    import importlib
    mod, cls = {"in.msh": ("cfdtools.gmsh", "reader"), "in.cgns": ("cfdtools.cgns.cgns", "cgnsMesh"), "in.ic3": ("cfdtools.ic3.reader_legacy", "reader")}[name]
    r = getattr(importlib.import_module(mod), cls)(put(name, key))
    r.read_data()
    m = r.export_mesh()
    if faces:
        m.make_face_connectivity()
    return m


def mesh_op(fn):
    def op():
        m = fn()
        return look(m), (lambda: look(m))
    return op


def text(fn, raw=False):
    out = io.StringIO()
    lg, dis = logging.getLogger("cfdtools"), logging.root.manager.disable
    logging.disable(logging.NOTSET)
    olds = [(h, h.setStream(out)) for h in lg.handlers if isinstance(h, logging.StreamHandler)]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                fn()
                end = "done"
            except SystemExit as e:
                end = f"status {e.code}"
    finally:
        for h, s in olds:
            if s is not None:
                h.setStream(s)
        logging.disable(dis)
    return end, out.getvalue() if raw else re.sub(r"0x[0-9a-f]+|\d+\.\d+µs|\d+\.\d+(e-?\d+)? *s\b|(CPU time|per cell|wtime|time).*", "T", out.getvalue())


def files(*names):
    return [(n, h5(n) if n.endswith((".h5", ".hdf", ".sol")) else get(n)) for n in names] + [sorted(os.listdir("."))]


def ic3_out(m, v, endian):
    import importlib
    importlib.import_module(f"cfdtools.ic3.writerV{v}").writer(m, endian).write_data("out.ic3")
    return files("out.ic3"), (lambda: look(m))


def box(*n):
    from cfdtools.meshbase.simple import Cube
    return Cube(*n).export_mesh()


def faced(m):
    m.make_face_connectivity()
    return m


MIXED = ([("hexa8", [[0, 1, 4, 3, 6, 7, 10, 9]], [1]), ("prism6", [[1, 2, 4, 7, 8, 10]], [0])],
         [[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 0], [2, 1, 0], [0, 0, 1], [1, 0, 1], [2, 0, 1], [0, 1, 1], [1, 1, 1], [2, 1, 1]])
FLAT = ([("tri3", [[1, 2, 4]], [1]), ("quad4", [[0, 1, 4, 3]], [0])], [[0, 0, 0], [1, 0, 0], [2, 0, 0], [0, 1, 0], [1, 1, 0]])


def op_v4():
    import cfdtools.ic3.readerV4 as r4
    import cfdtools.ic3.writerV4 as w4
    m = load("in.ic3", "ic3v3", False)
    w4.writer(m).write_data("mesh.h5", "sol.h5")
    r = r4.reader("mesh.h5", "sol.h5")
    r.read_data()
    k = r.export_mesh()
    return (files("mesh.h5", "sol.h5"), look(k)), (lambda: (look(m), look(k)))


def op_vtk():
    import cfdtools.vtk as vtk
    m = box(2, 1, 1)
    vtk.vtkMesh(m).write_data("out.vtu")
    g = pv.read("out.vtu")
    k = vtk.vtkMesh(pvmesh=g).export_mesh()
    return (g.points.tobytes(), g.cells.tobytes(), g.celltypes.tobytes(), look(k)), (lambda: (look(m), look(k)))


def op_list():
    import cfdtools.vtk as vtk
    put("a0.vtu", "vtu0"), put("a1.vtu", "vtu1")
    s = vtk.vtkList(["a0.vtu", "a1.vtu"])
    s.read()
    s.dumphdf("pack.hdf", overwrite=True)
    return files("pack.hdf"), None


def op_average():
    import cfdtools.vtk as vtk
    put("c.vtu", "column")
    out = vtk.vtkMesh(pvmesh=pv.read("c.vtu")).vtk_zconvolution(splitcoords=lambda p: (p[:, :2], p[:, 2]), rms=True, nmode=1, phase=True)
    g = out._grid
    return (g.points.tobytes(), sorted((k, np.asarray(g.cell_data[k]).tobytes()) for k in g.cell_data.keys())), None


def op_dump():
    from cfdtools.data import DataSet, DataSetList
    a = DataSet("cellaverage")
    a.add_data("P", np.array([1.5]), time=0.25)
    a.set_nodes(np.array([0.5]))
    s = DataSetList(2)
    s.add_datalist({"P": np.array([1.5])}, time=0.5)
    s.add_datalist({"P": np.array([2.5]), "Q": np.array([3])}, time=1.5)
    m = box(1, 1, 1)
    s.set_mesh(m)
    s.dumphdf("d.h5")
    one = lambda: [sorted((k, np.asarray(v).tobytes()) for k, v in d.items()) for d in s._datalist] + [sorted((k, np.asarray(v).tobytes()) for k, v in a.items()), repr(a._properties), repr(s._properties)]
    return (files("d.h5"), one()), one


def op_unsmesh():
    import cfdtools.vtk as vtk
    m = A.make_mesh(*MIXED)
    v = vtk.vtkMesh(m)
    v.dumphdf("u.h5")
    return files("u.h5"), (lambda: look(m))


def op_register():
    import cfdtools.api as api

    @api.fileformat_reader("USER", ".usr")
    class reader:
        def __init__(self, filename):
            self.filename = filename
        ncell = 0

    @api.fileformat_writer("IC3B", ".ic3b")
    class writer:
        pass
    return sorted((k, sorted(v)) for k, v in api._fileformat_map.items() if k in ("USER", "IC3B")), None


def op_timer():
    import cfdtools.api as api
    A.Clock.active = True
    t = api.Timer("task", nelem=3)
    out = []
    for k in range(3):
        A.Clock.now = 10.0 * k
        t.start()
        A.Clock.now += 1.5
        out.append(text(lambda: t.stop(nelem=2), True))
    A.Clock.active = False
    return out, None


def op_poly():
    from cfdtools.utils.polybase import poly1d
    keep = [poly1d(o) for o in (1, 2, 3)]
    w = lambda: [(p.interp_weights(0.3), p.diff_weights(0.3), p.interp_weights(np.array([-1.0, 0.5]))) for p in keep]
    return repr(w()), (lambda: repr(w()))


def op_spectrum():
    from cfdtools.data import DataSet
    d = DataSet("nodal", Trep="timeevol")
    d.add_data("time", np.arange(8) * 0.5)
    d.add_data("P", np.array([1.0, 2, 5, 3, 4, 0, 1, 7]))
    s = d.dataSet_spectrum(["P"])
    return sorted((k, np.asarray(v).tobytes()) for k, v in s.items()), (lambda: sorted((k, np.asarray(v).tobytes()) for k, v in d.items()))


def op_probe():
    from cfdtools.probes.data import phydata
    for k, v in enumerate(("P", "RHO", "U-X", "U-Y", "U-Z")):
        with open(f"line.{v}", "w") as f:
            f.writelines(f"{10 * t} {0.5 * t} 3 {k + 1 + t} {k + 2.5 + t} {k + 3}\n" for t in range(2))
    p = phydata("line")
    done = [(v, bool(p.check_data(v, prefix="line"))) for v in ("P", "Mach", "S", "U-X")]
    now = lambda: sorted((k, np.asarray(v).tolist()) for k, v in p.alldata.items())
    return (done, now()), now


def command(name, argv, *outs):
    def op():
        import cfdtools._cli as cli
        for src in ("ic3v2", "ic3v3", "msh2", "cgns"):
            put({"ic3v2": "in.ic3", "ic3v3": "in3.ic3", "msh2": "in.msh", "cgns": "in.cgns"}[src], src)
        put("a0.vtu", "vtu0"), put("a1.vtu", "vtu1")
        os.mkdir("sub")
        t = text(lambda: getattr(cli, name)(list(argv)))
        new = [n for n in outs if os.path.exists(n)]
        res = []
        for n in new:
            if n.endswith(".vtu"):
                g = pv.read(n)
                res.append((n, g.points.tobytes(), g.cells.tobytes(), sorted(g.cell_data.keys())))
            else:
                res.append((n, h5(n) if n.endswith(".h5") else get(n)))
        return (t, res, sorted(os.listdir(".") + os.listdir("sub"))), None
    return op


def bad(name, key):
    def op():
        try:
            m = load(name, key)
        except (Exception, SystemExit) as e:
            return ("refused", type(e).__name__, str(e)), None
        return look(m), (lambda: look(m))
    return op


def printing():
    m = box(2, 1, 1)
    return text(lambda: (m.printinfo(), m.printinfo(detailed=True))), (lambda: look(m))


def sub_extrude():
    m = load("in.msh", "msh2d", False)
    e = m.export_extruded(extrude=[0.0, 0.5, 2.0])
    e.make_face_connectivity()
    return look(e), (lambda: look(e))


OPS = {
    "gmsh2": mesh_op(lambda: load("in.msh", "msh2")),
    "gmsh4": mesh_op(lambda: load("in.msh", "msh4")),
    "gmsh refused": bad("in.msh", "mshbad"),
    "gmsh to V3": lambda: ic3_out(load("in.msh", "msh2", False), 3, "native"),
    "cgns": mesh_op(lambda: load("in.cgns", "cgns")),
    "cgns second": mesh_op(lambda: load("in.cgns", "cgnsb")),
    "cgns refused": bad("in.cgns", "cgnsbad"),
    "V2": mesh_op(lambda: load("in.ic3", "ic3v2", False)),
    "V3 big": mesh_op(lambda: load("in.ic3", "ic3v3", False)),
    "ic3 refused": bad("in.ic3", "ic3bad"),
    "V2 to V3 little": lambda: ic3_out(load("in.ic3", "ic3v2", False), 3, "little"),
    "mix to V2 big": lambda: ic3_out(load("in.ic3", "ic3mix", False), 2, "big"),
    "box faces": mesh_op(lambda: faced(box(2, 1, 2))),
    "box to V2 big": lambda: ic3_out(box(1, 2, 1), 2, "big"),
    "mixed faces": mesh_op(lambda: faced(A.make_mesh(*MIXED))),
    "flat faces": mesh_op(lambda: faced(A.make_mesh(*FLAT))),
    "extrude": sub_extrude,
    "V4": op_v4,
    "vtk": op_vtk,
    "series": op_list,
    "average": op_average,
    "hdf5 mesh": op_unsmesh,
    "data list": op_dump,
    "register": op_register,
    "timer": op_timer,
    "polynomials": op_poly,
    "spectrum": op_spectrum,
    "probe": op_probe,
    "print": printing,
    "cfdinfo ic3": command("cfdinfo", ["in.ic3"]),
    "cfdinfo gmsh": command("cfdinfo", ["--info", "in.msh"]),
    "cfdwrite cgns": command("cfdwrite_ic3v3", ["--fmt", "CGNS", "in.cgns", "--outpath", "sub", "--scale", "2", "1", "1"], "sub/in.ic3"),
    "cfdwrite removed": command("cfdwrite_ic3v2", ["in.ic3", "--remove-cell-data", "P", "U", "--outpath", "sub"], "sub/in.ic3"),
    "cfdwrite vtk": command("cfdwrite_vtk", ["in.msh"], "in.vtu"),
    "cfdwritecube": command("cfdwritecube", ["cube.ic3", "--nx", "2", "--ny", "1", "--nz", "1"], "cube.ic3"),
    "ic3brief": command("ic3brief", ["in.ic3"]),
    "vtkbrief": command("vtkbrief", ["a0.vtu"]),
    "vtkpack": command("vtkpack", ["a0.vtu", "a1.vtu"], "dumped.h5"),
}
DEEP = ["gmsh2", "gmsh refused", "cgns refused", "V2", "V3 big", "V2 to V3 little", "box faces", "mixed faces", "V4", "vtk", "cfdinfo ic3", "cfdwrite cgns"]
WIDE = DEEP + ["gmsh to V3", "cgns", "mix to V2 big", "flat faces", "extrude", "series", "register", "average", "data list", "cfdwrite removed"]
MENUS = {"all": (OPS, 3), "pairs": (OPS, 2), "wide": (WIDE, 3), "deep": (DEEP, 4)}
TIERS = {"quick": ("pairs", "wide"), "thorough": ("all", "deep")}


# ------------------------------------------------------------------------------------------------------------------- histories


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=12).hexdigest()


def perform(name):
    d = os.getcwd()
    for f in os.listdir(d):
        p = os.path.join(d, f)
        (shutil.rmtree if os.path.isdir(p) else os.unlink)(p)
    try:
        res, again = OPS[name]()
    except Exception as e:  # an operation refused in a fresh process must be refused likewise
        res, again = ("raised", type(e).__name__, str(e)), None
    return res, again


def sandbox():
    d = os.path.join(A.scratch(), f"h{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chdir(d)
    return d


def fresh(name):
    res, again = perform(name)
    return digest(res), digest(again()) if again else None, repr(res)[:400]


def grow(hist, ref, menu, depth, held):
    """runs in a child: hist has been performed in this process but its last operation; returns (histories explored, operations checked, [violations])"""
    res, again = perform(hist[-1])
    bad = []
    if digest(res) != ref[hist[-1]][0]:
        bad.append((hist, f"{hist[-1]} after {hist[:-1]} gives {repr(res)[:400]} instead of {ref[hist[-1]][2]}"))
    held = held + [(len(hist) - 1, again)]
    nchk = 1
    for k, a in held:
        if a is None:
            continue
        try:
            now = digest(a())
        except Exception as e:
            now = f"{type(e).__name__}: {e}"
        nchk += 1
        if now != ref[hist[k]][1]:
            bad.append((hist, f"the objects of {hist[k]} (operation {k + 1} of {hist}) have changed or differ from those of a fresh process"))
    n = 1
    if not bad and len(hist) < depth:
        for o in menu:
            a, b, c = child(grow, hist + (o,), ref, menu, depth, held)
            n, nchk, bad = n + a, nchk + b, bad + c
            if len(bad) > 5:
                break
    return n, nchk, bad


def cases(tier, seed):
    inputs()
    return [(k, a, b) for k in TIERS[tier] for a in MENUS[k][0] for b in MENUS[k][0]]


_ref = {}


def references():
    if not _ref:
        for n in OPS:
            _ref[n] = child(fresh, n)
    return _ref


def run(case, ctx):
    kind, a, b = case
    inputs()
    d = sandbox()
    try:
        ref = references()
        menu, depth = list(MENUS[kind][0]), MENUS[kind][1]
        again = child(fresh, b)
        require(again == ref[b], f"{b}: two fresh processes give different results: {again[2]} / {ref[b][2]}")

        def start():
            res, keep = perform(a)
            bad = [] if digest(res) == ref[a][0] else [((a,), f"{a} differs between two fresh processes")]
            if bad:
                return 1, 1, bad
            return child(grow, (a, b), ref, menu, depth, [(0, keep)])

        n, nchk, bad = child(start)
        ctx.count("transitions", n)
        ctx.count("results_compared", nchk)
        ctx.count("traces_validated_against_impl", n)
        for i in range(n):
            ctx.state(kind, a, b, i)
        ctx.outcome(ref[a][0], ref[b][0])
        ctx.sample({"prefix": [a, b], "histories": n, "comparisons": nchk})
        for h, msg in bad:
            ctx.fail(msg, "-".join(h), None)
    finally:
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)
