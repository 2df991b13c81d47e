"""C20 VTK and HDF5 round trips over mesh growth, and cell volumes over call histories."""
import itertools
import os

import numpy as np

import cfdtools.hdf5 as hdf5
import cfdtools.vtk as vtk

from .. import adapter as A
from .. import meshspace as S
from .. import refmesh as R
from ..core import require

PARENT_COUNTS = {}
PROP, LEVEL = "C20", "model_checking"
ASSUMPTIONS = ["cells of one type keep their relative order; the order between types is free",
               "volumes are compared on cells with positive geometric volume, in absolute value for prisms (VTK orients wedges the other way round)"]
SPACE = []
VTKTYPE = {3: "bar2", 5: "tri3", 9: "quad4", 10: "tetra4", 14: "pyra5", 13: "prism6", 12: "hexa8"}
SPECIAL = [0.0, -0.0, 1e-310, 5e-324, 1.7976931348623157e308, -1e300, 0.1, 1 / 3, 2.0 ** -52, 1e16 + 2]


def bounds(tier):
    return ("all meshes of <=2 cells (3-D, mixed) and <=3 cells (2-D) reachable by gluing" + (", all 3-cell 3-D gluings (last cell in rotation 0)" if tier == "thorough" else "")
            + ", all templates and larger grids; vtu, vtk, HDF5 (plain, compressed, via a data list) round trips; coordinates with special values; "
            "volumes for all templates under affine maps, and all histories of 3 load/volume operations over 3 meshes")


def cases(tier, seed):
    SPACE.clear()
    PARENT_COUNTS.clear()
    PARENT_COUNTS["transitions"] = 0
    for n, types in ((1, S.T3), (2, S.T3), (1, S.T2), (2, S.T2), (3, S.T2)) + (((3, S.T3),) if tier == "thorough" else ()):
        st, tr = S.grow(n, types, rots=(0,) if (n, types) == (3, S.T3) else None)
        PARENT_COUNTS["transitions"] += tr
        SPACE.extend(("grow", c, None) for c in st)
    SPACE.extend(("geo", c, x) for _, c, x in S.templates())
    SPACE.extend(("geo", c, x) for c, x in (S.grid2d(3, 2, k) for k in (("quad4",), ("tri3",), ("quad4", "tri3"))))
    SPACE.extend(("geo", c, x) for c, x in (S.hexgrid(4, 3, 5), S.hexgrid(3, 3, 2, "tetra4"), S.hexgrid(2, 3, 2, "pyra5")))
    chunk = 60
    return [("rt", i, min(i + chunk, len(SPACE))) for i in range(0, len(SPACE), chunk)] + [("vol", k, 0) for k in range(4)] + [("hist", k, 0) for k in range(len(OPS))]


def by_type(cells):
    out = {}
    for t, n in cells:
        out.setdefault(t, []).append(tuple(n))
    return out


def same(m, cells, xyz, what):
    want = by_type(cells)
    require(m.nnode == len(xyz) and m.ncell == len(cells), f"{what}: {m.nnode} nodes {m.ncell} cells instead of {len(xyz)}, {len(cells)}")
    x = A.coords(m)
    require(x.shape == xyz.shape and x.tobytes() == xyz.tobytes(), f"{what}: node coordinates differ")
    rows = A.elems_of(m._cell2node)
    require(sorted(r[0] for r in rows) == list(range(len(cells))), f"{what}: cell numbers")
    got = {}
    for i, t, n in rows:
        got.setdefault(t, []).append((i, n))
    require(sorted(got) == sorted(want), f"{what}: element types {sorted(got)} instead of {sorted(want)}")
    for t, l in got.items():
        require([n for _, n in l] == want[t], f"{what}: {t} cells {[n for _, n in l][:4]} instead of {want[t][:4]}")
        require([i for i, _ in l] == sorted(i for i, _ in l), f"{what}: {t} cells renumbered")


def path(ext):
    return os.path.join(A.scratch(), f"v{os.getpid()}{ext}")


def h5mesh(p, what):
    f = hdf5.h5File(p)
    f.open()
    v = vtk.vtkMesh()
    v.importhdfgroup(f["mesh"])
    m = v.export_mesh()
    typ = f.datatype
    f.close()
    return m, typ


def trip(cells, xyz, ctx, full):
    def fresh():
        return A.make_mesh(S.blocks_of(cells), xyz.tolist())

    v = vtk.vtkMesh(fresh())
    same(v.export_mesh(), cells, xyz, "VTK object")
    for ext in (".vtu", ".vtk"):
        p = path(ext)
        v.write_data(p)
        r = vtk.vtkMesh().read(p)
        require(r.ncell == len(cells) and r.nnode == len(xyz), "counts of the file read")
        m = r.export_mesh()
        same(m, cells, xyz, ext)
        same(vtk.vtkMesh(m).export_mesh(), cells, xyz, ext + " twice")
        os.unlink(p)
    for opt in ({}, {"compression": "gzip"}) if full else ({},):
        p = path(".h5")
        name = v.dumphdf(p, overwrite=True, **opt)
        require(name == p, f"{name} returned for {p}")
        m, typ = h5mesh(p, "")
        require(typ == "dataset", f"type {typ}")
        same(m, cells, xyz, f"HDF5 {opt}")
        os.unlink(p)
        dl = A.data_mod.DataSetList(1)
        dl.set_mesh(fresh())
        dl.add_datalist({"q": np.arange(len(cells))})
        dl.dumphdf(p, overwrite=True, **opt)
        m, typ = h5mesh(p, "")
        require(typ == "datalist", f"type {typ}")
        same(m, cells, xyz, f"HDF5 data list {opt}")
        os.unlink(p)
    ctx.count("traces_validated_against_impl")


MAPS = [np.eye(3), np.diag([2.0, 0.5, 3.0]), np.array([[1, .3, 0], [0, 1, .2], [.1, 0, 1]]), np.array([[0, -1, 0], [1, 0, 0], [0, 0, 4.0]])]


def volumes(v, cells, xyz, what):
    got = np.asarray(v.volumes())
    order = [c for t in dict.fromkeys(t for t, _ in cells) for c in cells if c[0] == t]
    require(got.shape == (len(cells),), f"{what}: {got.shape} volumes for {len(cells)} cells")
    ref = {}
    for t, n in cells:
        ref.setdefault(t, []).append(R.volume(t, [tuple(xyz[i]) for i in n]))
    types = np.asarray(v.pyvista_grid.celltypes)
    seen = {}
    for g, vt in zip(got, types):
        t = VTKTYPE[int(vt)]
        w = ref[t][seen.setdefault(t, 0)]
        seen[t] += 1
        g = abs(g) if t == "prism6" else g
        require(abs(g - w) < 1e-12 * max(1, abs(w)) * 100, f"{what}: volume {g} of a {t} instead of {w}")


OPS = [("set", 0), ("set", 1), ("set", 2), ("read", 0), ("read", 1), ("hdf", 2), ("hdf", 0), ("vol", 0), ("vol", 1)]


def run(case, ctx):
    kind, lo, hi = case
    if kind == "rt":
        for k, cells, x in SPACE[lo:hi]:
            ctx.state(cells)
            nn = 1 + max(i for _, c in cells for i in c)
            xyz = np.array(S.fake_coords(nn) if x is None else x, float)
            if k == "grow" and len(cells) == 1 or k == "geo" and len(cells) < 8:
                sp = np.resize(np.array(SPECIAL), (nn, 3)) + 0.0
                sp[:, 0] = np.resize(SPECIAL, nn)
                ctx.attempt(trip, cells, sp, ctx, True, what=f"special coordinates {cells[:2]}")
            ctx.attempt(trip, cells, xyz, ctx, len(cells) < 3, what=f"round trip of {cells if len(cells) < 4 else len(cells)}")
            ctx.outcome(sorted(t for t, _ in cells))
        ctx.sample({"meshes": hi - lo, "first": SPACE[lo][1][:3]})
    elif kind == "vol":
        M = MAPS[lo]
        for name, cells, x in S.templates():
            xyz = np.array(x, float) @ M.T + 3.0
            v = vtk.vtkMesh(A.make_mesh(S.blocks_of(cells), xyz.tolist()))
            for k in range(3):
                volumes(v, cells, xyz, f"{name} call {k}")
                ctx.count("transitions")
            ctx.state("vol", name, lo)
            ctx.count("traces_validated_against_impl")
    else:
        T = [S.templates()[i][1:] for i in (0, 1, 13)]
        meshes = [(c, np.array(x, float) * (k + 1)) for k, (c, x) in enumerate(T)]
        for tail in itertools.product(OPS, repeat=3):
            v, cur = vtk.vtkMesh(), None
            for op, k in (OPS[lo],) + tail:
                c, x = meshes[k]
                if op == "set":
                    v.set_mesh(A.make_mesh(S.blocks_of(c), x.tolist()))
                    cur = k
                elif op == "read":
                    p = path(f"r{k}.vtu")
                    if not os.path.exists(p):
                        vtk.vtkMesh(A.make_mesh(S.blocks_of(c), x.tolist())).write_data(p)
                    v.read(p)
                    cur = k
                elif op == "hdf":
                    p = path(f"h{k}.h5")
                    if not os.path.exists(p):
                        vtk.vtkMesh(A.make_mesh(S.blocks_of(c), x.tolist())).dumphdf(p)
                    f = hdf5.h5File(p)
                    f.open()
                    v.importhdfgroup(f["mesh"])
                    f.close()
                    cur = k
                elif cur is not None:
                    volumes(v, *meshes[cur], f"history {(OPS[lo],) + tail}")
                ctx.count("transitions")
            if cur is not None:
                volumes(v, *meshes[cur], f"history {(OPS[lo],) + tail}")
                same(v.export_mesh(), *meshes[cur], f"history {(OPS[lo],) + tail}")
            ctx.state("hist", lo, tail)
            ctx.count("traces_validated_against_impl")
