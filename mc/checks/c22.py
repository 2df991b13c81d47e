"""C22 packed series: the HDF5 file and its XDMF index, parsed independently, against physical cells."""
import hashlib
import itertools
import os
import shutil
import xml.etree.ElementTree as ET

import h5py
import numpy as np

import cfdtools
import cfdtools._cli as cli
import cfdtools.vtk as vtk

from .. import adapter as A
from .. import meshspace as S
from .. import vtkgen as V
from ..core import require
from .c21 import FIELDS, GRIDS
from .c27 import variant

PROP, LEVEL = "C22", "model_checking"
ASSUMPTIONS = ["the time written in the index is the position of the file in the series, as asserted by the package's own test; the physical time is an attribute of the HDF5 group",
               "the k-th value of a field belongs to the k-th cell when the topologies of the index are put one after the other",
               "the index names scalars and vectors; other widths only have to be stored"]
XTYPE = {"tri3": "Triangle", "quad4": "Quadrilateral", "hexa8": "Hexahedron", "tetra4": "Tetrahedron", "pyra5": "Pyramid", "prism6": "Prism"}
MIX = dict(GRIDS, mixall=S.mixedgrid(("pyra5", "hexa8", "prism6")))


def bounds(tier):
    return (f"grids {sorted(MIX)} x series of 1..3 files x all cell orders of one file (<=4 cells; else all transpositions) x cell orders of the first file x filters x times; all sets of existing "
            "output/index variants x overwrite x folder; options xdmf/compression; the vtkpack command. Order of the types in mixed grids: all orders of <=4 cells")


def perms(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    out = {tuple(range(n)), tuple(range(n))[::-1]}
    for i, j in itertools.combinations(range(n), 2):
        q = list(range(n))
        q[i], q[j] = q[j], q[i]
        out.add(tuple(q))
    return sorted(out)


def cases(tier, seed):
    out = []
    for g, (cells, x) in MIX.items():
        for w in (0, 1):
            P = perms(len(cells))
            out += [("order", g, (w, P[i:i + 10])) for i in range(0, len(P), 10)]
        out.append(("times", g, 0))
    out += [("files", ex, ow) for ex in range(16) for ow in (0, 1)]
    out += [("filter", "row3", 0), ("filter", "mixed", 0)]
    return out


def write(d, name, cells, xyz, perm, step, time=None, fields=FIELDS):
    g = V.grid(cells, xyz, perm)
    for k, (f, kind) in enumerate(fields):
        g.cell_data[f] = V.field(kind, step, FIELDS.index((f, kind)), len(cells))[list(perm)]
    if time is not None:
        g.field_data["TimeValue"] = np.array([time])
    p = os.path.join(d, name)
    g.save(p)
    return p


def judge(h5, xmf, cells, xyz, first, steps, times, names, index=True):
    """names: [(field, kind)] stored; values are tied to cells by the nodes of the k-th listed cell"""
    xyz = np.array(xyz, float)
    where = {(t, tuple(n)): i for i, (t, n) in enumerate(cells)}
    with h5py.File(h5, "r") as f:
        require(f.attrs["cfd_datatype"] == "datalist" and f.attrs["cfdtools_version"] == cfdtools.__version__ and "data_version" in f.attrs, "tags")
        nodes = f["mesh/nodes"][()]
        require(nodes.tobytes() == xyz.tobytes(), "nodes of the packed mesh")
        conn = {t: f["mesh/cells"][t][()] for t in f["mesh/cells"]}
        require(sum(len(c) for c in conn.values()) == len(cells), "cells of the packed mesh")
        groups = sorted(f["datalist"])
        require(len(groups) == len(steps), f"{len(groups)} data groups for {len(steps)} files")
        order = [t for t in dict.fromkeys(cells[c][0] for c in first)]  # only used without index: one type
        if index:
            order = []
            base = os.path.dirname(xmf)

            def item(e, count=None):
                d = e.find("DataItem")
                require(d.get("Format") == "HDF", "format of an item")
                file, path = d.text.strip().split(":")
                require(os.path.realpath(os.path.join(base, file)) == os.path.realpath(h5), f"the index refers to {file}")
                require(path in f, f"the index refers to {path}, which does not exist")
                dims = [int(x) for x in d.get("Dimensions").split()]
                require(int(np.prod(dims)) == f[path].size, f"dimensions {dims} of {path}: {f[path].shape}")
                return path, dims

            top = ET.parse(xmf).getroot()
            require(top.tag == "Xdmf", "root of the index")
            coll = top.find("Domain").find("Grid")
            require(coll.get("GridType") == "Collection" and coll.get("CollectionType") == "Temporal", "collection")
            grids = coll.findall("Grid")
            require(len(grids) == len(steps), f"{len(grids)} steps in the index")
            for s, g in enumerate(grids):
                require(float(g.find("Time").get("Value")) == s, "time of the index")
                geo = g.find("Geometry")
                require(geo.get("GeometryType") == "XYZ" and item(geo)[0] == "/mesh/nodes", "geometry")
                o = []
                for t in g.findall("Topology"):
                    path, dims = item(t)
                    et = path.rsplit("/", 1)[1]
                    require(t.get("TopologyType") == XTYPE[et] and int(t.get("NumberOfElements")) == len(conn[et]) and f[path][()].tobytes() == conn[et].tobytes(), f"topology {et}")
                    o.append(et)
                require(sorted(o) == sorted(conn) and (not order or o == order), f"topologies {o}")
                order = o
                att = {a.get("Name"): a for a in g.findall("Attribute")}
                require(sorted(att) == sorted(n for n, _ in names) and len(g.findall("Attribute")) == len(att), f"fields of the index {sorted(att)}")
                for n, kind in names:
                    path, dims = item(att[n])
                    require(path == f"/datalist/{groups[s]}/{n}", f"{n} of step {s} is at {path}")
                    require(att[n].get("Center") == "Cell" and dims == list(f[path].shape), f"{n}: dimensions {dims}")
                    if kind in "siv":
                        require(att[n].get("AttributeType") == ("Vector" if kind == "v" else "Scalar"), f"{n} is a {att[n].get('AttributeType')}")
        listed = [(t, tuple(int(x) for x in row)) for t in order for row in conn[t]]
        require(sorted(listed) == sorted(where), "cells of the packed mesh")
        phys = [where[c] for c in listed]
        for s, (grp, step, t) in enumerate(zip(groups, steps, times)):
            g = f["datalist"][grp]
            require(sorted(g) == sorted(n for n, _ in names), f"fields of file {s}: {sorted(g)}")
            require(sorted(g.attrs) == ([] if t is None else ["time"]) and (t is None or float(np.ravel(g.attrs["time"])[0]) == t), f"time of file {s}: {dict(g.attrs)} instead of {t}")
            for n, kind in names:
                want = V.field(kind, step, FIELDS.index((n, kind)), len(cells))[phys]
                got = g[n][()]
                require(got.dtype == want.dtype and got.shape == want.shape and np.array_equal(got, want), f"file {s}: {n} of the packed cells: {got.tolist()[:4]} instead of {want.tolist()[:4]}")


def pack(files, h5, xdmf=True, overwrite=False, filt=None, **opt):
    l = vtk.vtkList(files)
    l.read(**({} if filt is None else {"filterdata": filt}))
    return l.dumphdf(h5, xdmf=xdmf, overwrite=overwrite, **opt), l


def run(case, ctx):
    kind, g, arg = case
    d = os.path.join(A.scratch(), f"k{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "out"))
    here = os.getcwd()
    os.chdir(d)
    try:
        {"order": orders, "times": times, "files": collisions, "filter": filters}[kind](g, arg, d, ctx)
        ctx.outcome(kind, g)
        ctx.sample({"kind": kind, "case": repr((g, arg))[:200]})
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def orders(g, arg, d, ctx):
    which, P = arg
    cells, xyz = MIX[g]
    ident = tuple(range(len(cells)))
    for p in P:
        first = p if which == 0 else ident
        second = ident if which == 0 else p
        fs = [write(d, "a.vtu", cells, xyz, first, 0), write(d, "b.vtu", cells, xyz, second, 1), write(d, "c.vtu", cells, xyz, ident[::-1], 2)]
        for n in (1, 2, 3):
            h5 = os.path.join(d, f"o{n}.h5")
            opt = {"compression": "gzip"} if n == 2 else {}
            name, l = pack(fs[:n], h5, overwrite=True, **opt)
            require(name == h5, f"{name} returned")
            judge(h5, h5[:-3] + ".xmf", cells, xyz, first, range(n), [None] * n, FIELDS)
            if n == 3:  # pack again: same content, another name
                name, _ = pack(fs, h5)
                require(name == h5[:-3] + "(1).h5", f"{name} returned")
                judge(name, name[:-3] + ".xmf", cells, xyz, first, range(n), [None] * n, FIELDS)
                name2 = l.dumphdf(h5[:-3] + "x.h5", xdmf=True)
                judge(name2, name2[:-3] + ".xmf", cells, xyz, first, range(n), [None] * n, FIELDS)
                os.unlink(name2)
                os.unlink(name2[:-3] + ".xmf")
                os.unlink(name)
                os.unlink(name[:-3] + ".xmf")
            ctx.state(g, which, p, n)
            ctx.count("transitions")
            ctx.count("traces_validated_against_impl")


def times(g, arg, d, ctx):
    cells, xyz = MIX[g]
    content(cells, xyz, ctx)
    ident = tuple(range(len(cells)))
    for ts in itertools.product((None, 0.0, 2.5), repeat=2):
        fs = [write(d, f"t{k}.vtu", cells, xyz, ident if k == 0 else ident[::-1], k, t) for k, t in enumerate(ts)]
        h5 = os.path.join(d, "t.h5")
        pack(fs, h5, overwrite=True)
        judge(h5, os.path.join(d, "t.xmf"), cells, xyz, ident, (0, 1), ts, FIELDS)
        ctx.state(g, "times", ts)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")


def content(cells, xyz, ctx):
    """the index lines of a data set made twice from one description of the geometry"""
    for n in range(1, 4):
        ds = A.data_mod.DataSetList(n)
        for k in range(n):
            ds.add_datalist({f: V.field(kind, k, j, len(cells)) for j, (f, kind) in enumerate(FIELDS) if kind in "siv"}, time=0.5 * k)
        m = vtk.vtkMesh()
        m.set_pvmesh(V.grid(cells, xyz, tuple(range(len(cells)))))
        geo = m.xdmf_content("x.h5")
        keep = list(geo)
        a = list(ds.xdmf_content("x.h5", geo))
        b = list(ds.xdmf_content("x.h5", geo))
        require(a == b and geo == keep, f"index of {n} steps made twice from the same geometry differs, or the geometry was changed")
        ctx.count("transitions", 2)
        ctx.state("content", len(cells), n)


def filters(g, arg, d, ctx):
    cells, xyz = MIX[g]
    ident = tuple(range(len(cells)))
    fs = [write(d, f"f{k}.vtu", cells, xyz, ident, k) for k in range(2)]
    for r in range(1, 6):
        for sub in itertools.combinations(FIELDS, r):
            h5 = os.path.join(d, "f.h5")
            pack(fs, h5, overwrite=True, filt=[n for n, _ in sub])
            judge(h5, os.path.join(d, "f.xmf"), cells, xyz, ident, (0, 1), (None, None), sub)
            only = [write(d, f"g{k}.vtu", cells, xyz, ident, k, fields=sub) for k in range(2)]
            pack(only, h5, overwrite=True)
            judge(h5, os.path.join(d, "f.xmf"), cells, xyz, ident, (0, 1), (None, None), sub)
            ctx.state(g, "filter", sub)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")


def snap(d):
    return {os.path.relpath(os.path.join(r, x), d): hashlib.md5(open(os.path.join(r, x), "rb").read()).hexdigest() for r, _, fs in os.walk(d) for x in fs}


def collisions(ex, ow, d, ctx):
    cells, xyz = MIX["row2"]
    fs = [write(d, f"f{k}.vtu", cells, xyz, (1 - k, k), k, 0.5 * k) for k in range(2)]
    for target, xdmf in itertools.product(("s.h5", "out/s.h5", os.path.join(d, "s.h5"), "s.t.hdf", "nosuffix"), (True, False)):
        folder, name = os.path.split(target)
        stem, suf = os.path.splitext(name)
        have = [x for b, x in enumerate((name, f"{stem}(1){suf}", f"{stem}.xmf", f"{stem}(1).xmf")) if ex >> b & 1]
        for x in have:
            open(os.path.join(folder, x), "w").write("precious")
        before = snap(d)
        got, _ = pack(fs, target, xdmf=xdmf, overwrite=bool(ow))
        after = snap(d)
        k = 0 if ow else next(k for k in itertools.count() if variant(name, k) not in have)
        want = os.path.join(folder, variant(name, k))
        require(got == want, f"{got} returned instead of {want} (existing {have}, overwrite {ow})")
        changed = {x for x in before if after.get(x) != before[x]}
        xm = os.path.splitext(want)[0] + ".xmf"
        allowed = {os.path.relpath(want, d), os.path.relpath(xm, d)} if ow else set()
        require(changed <= allowed, f"existing files changed: {sorted(changed)} (existing {have}, overwrite {ow}, target {target})")
        new = sorted(set(after) - set(before))
        hw = os.path.relpath(want, d)
        require(hw in after and len([x for x in new if not x.endswith(".xmf")]) == (0 if hw in before else 1), f"new files {new}")
        xs = [x for x in new if x.endswith(".xmf")]
        if xdmf:
            if not xs:
                require(ow and os.path.relpath(xm, d) in before, "no index written")
                xs = [os.path.relpath(xm, d)]
            require(len(xs) == 1, f"indexes {xs}")
            judge(want, os.path.join(d, xs[0]), cells, xyz, (1, 0), (0, 1), (0.0, 0.5), FIELDS)
        else:
            require(not xs, f"index {xs} written without being asked")
            judge(want, None, cells, xyz, (1, 0), (0, 1), (0.0, 0.5), FIELDS, index=False)
        for x in set(snap(d)) - {"f0.vtu", "f1.vtu"}:
            os.unlink(os.path.join(d, x))
        ctx.state("files", ex, ow, target, xdmf)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
    # the command
    for b, x in enumerate(("dumped.h5", "dumped(1).h5", "dumped.xmf")):
        if ex >> b & 1:
            open(x, "w").write("precious")
    before = snap(d)
    got = cli.vtkpack(["f0.vtu", "f1.vtu"])
    after = snap(d)
    require(all(after.get(x) == h for x, h in before.items()) and sorted(set(after) - set(before)) == [got], f"vtkpack: {sorted(set(after) - set(before))}")
    judge(got, None, cells, xyz, (1, 0), (0, 1), (0.0, 0.5), FIELDS, index=False)
    ctx.count("transitions")
