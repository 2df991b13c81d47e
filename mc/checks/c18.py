"""C18: unstructured CGNS files.

State space: small meshes x assignments of the boundary faces to boundary conditions (all of them) x description of the
conditions (node list, face list, element list, family or own name, shared family, grid connectivity) x order, splitting and
names of the element sections.  Every state is written by an independent writer and read by the real reader."""
import itertools
import os

import numpy as np

from .. import adapter as A
from .. import cgnsref as CG
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from ..ic3util import tmp
from .c16 import small, bfaces, FT

import cfdtools.cgns as cgns  # noqa: E402

PROP, LEVEL = "C18", "model_checking"
ASSUMPTIONS = ["linear elements in sections of one type; conditions given by PointList (Vertex or FaceCenter) or ElementList", "a node list holding every node of the zone, or an element list holding "
               "every cell, describes the whole domain"]


def bounds(tier):
    return (f"all assignments of the boundary faces of 7 meshes (<=7 faces) to {'3 conditions or none' if tier == 'thorough' else '2 (3 up to 4 faces) conditions or none'} x 5 descriptions; all orders of "
            f"<= {6 if tier == 'thorough' else 4} element sections; every node subset of the meshes with <= 9 nodes; every two-cell mesh")


def sections(cells, faces, split, names):
    """cell sections (per type, per run of one type, or one cell each) and face sections (per condition and type); faces: {cond: [faces]}"""
    out = []
    if split == "type":
        for t in dict.fromkeys(t for t, _ in cells):
            out.append([t, [n for u, n in cells if u == t]])
    elif split == "run":
        for t, g in itertools.groupby(cells, key=lambda c: c[0]):
            out.append([t, [n for _, n in g]])
    else:
        out = [[t, [n]] for t, n in cells]
    ncs = len(out)
    for c in sorted(faces):
        for t, g in itertools.groupby(sorted(faces[c], key=len), key=len):
            out.append([FT[t], list(g)])
    return [(names(i, len(out)), t, r) for i, (t, r) in enumerate(out)], ncs


NAMES = [lambda i, n: f"Sec{i}", lambda i, n: f"Z{n - i:02d} el", lambda i, n: f"{'bcade'[i % 5]}{i}"]
MODES = ["vertex", "vertexloc", "face", "elem", "mix"]
FAMS = [lambda c: None, lambda c: f"fam {c}", lambda c: "shared" if c != 1 else "own", lambda c: None if c else "wall-top", lambda c: "one"]
TYPES = ["BCWall", "BCInflow", "FamilySpecified"]


def model(cells, xyz, assign, mode, fam, split="type", perm=None, names=0, extra=(), gc=False, physdim=3):
    dim = R.DIM[cells[0][0]]
    bf = bfaces(cells)
    faces = {}
    for f, a in zip(bf, assign):
        if a is not None:
            faces.setdefault(a, []).append(f)
    sec, ncs = sections(cells, faces, split, NAMES[names])
    if perm is not None:
        sec = [sec[i] for i in perm]
    # element numbers (1-based) of each face
    num, k = {}, 1
    allcells = []
    for _, t, rows in sec:
        for r in rows:
            if R.DIM.get(t, -1) == dim:
                allcells.append(k)
            else:
                num[tuple(r)] = k
            k += 1
    bcs = []
    for c in sorted(faces):
        kind = mode if mode != "mix" else ("vertex", "face", "elem")[c % 3]
        if kind.startswith("vertex"):
            nodes = sorted({x + 1 for f in faces[c] for x in f}, reverse=bool(c % 2))
            lst = ("PointList", "Vertex" if kind == "vertexloc" else None, nodes)
        elif kind == "face":
            lst = ("PointList", "FaceCenter", [num[f] for f in faces[c]])
        else:
            lst = ("ElementList", None, [num[f] for f in reversed(faces[c])])
        b = dict(name=f"BC {c}", type=TYPES[c % 3], family=FAMS[fam](c), list=lst)
        if gc and c == 1:
            b.update(parent="ZoneGridConnectivity", label="GridConnectivity_t", name="BC 0" if gc == 2 else "BC 1", type="Other zone")
            if gc == 2:
                b["family"] = "conn"
        bcs.append(b)
    if "cells" in extra:
        bcs.append(dict(name="a domain", type="BCTypeNull", family="FLUID", list=("ElementList", None, allcells)))
    if "nodes" in extra:
        bcs.insert(0, dict(name="domain", type="BCTypeNull", family=None, list=("PointList", None, list(range(1, len(xyz) + 1)))))
    if "low" in extra:
        sec = sec + [("lines", "bar2" if dim == 3 else "node1", [bf[0][:2] if dim == 3 else bf[0][:1]])]
    return dict(geodim=dim, physdim=physdim, zones=[dict(name="zone A", xyz=xyz, sections=sec, bcs=bcs)])


def check_read(ctx, m, kw=None, zone=None, what=""):
    ctx.state(repr(m), repr(kw), zone)
    p = tmp(".cgns")
    try:
        CG.write(p, m, **(kw or {}))
        r = cgns.cgnsMesh(p)
        r.read_data() if zone is None else r.read_data(zone=zone)
        mesh = r.export_mesh()
        r._file._h5file.close()
    finally:
        if os.path.exists(p):
            os.unlink(p)
    z = [z for z in m["zones"] if zone is None or z["name"] == zone][0]
    xyz, cells, marks = CG.expected(m, z)
    got = A.coords(mesh)
    require(mesh.nnode == len(xyz) and got.shape == xyz.shape and np.array_equal(got, xyz), "coordinates differ", "coords")
    cc = A.cells(mesh)
    require(mesh.ncell == len(cells) and r.ncell == len(cells) and cc == dict(enumerate(cells)), f"cells {cc} instead of {dict(enumerate(cells))}", "cells")
    mk = A.marks(mesh)
    require(sorted(mk) == sorted(marks), f"marks {sorted(mk)} instead of {sorted(marks)}", "marks")
    for n, b in mk.items():
        nodes, types = marks[n]
        require(b.name == n and b.nodebased() and b.type == "boundary", f"mark {n} is {b.geodim} {b.type}", "marks")
        require({int(i) for i in b.index.list()} == nodes, f"mark {n} covers {sorted(b.index.list())} instead of {sorted(nodes)}", "marks")
        require(b.properties.get("BCtype") in types, f"mark {n} has type {b.properties.get('BCtype')}", "bctype")
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl")


def small2():
    d = dict(small())
    d["hex221"] = S.hexgrid(2, 2, 1)
    d["hexpyr"] = S.mixedgrid(("hexa8", "pyra5", "hexa8"))
    return d


def cases(tier, seed):
    deep = tier == "thorough"
    for name in ("tri", "quad", "trq", "tet", "pyr", "prism", "hex"):
        for mode in MODES:
            n = len(bfaces(small()[name][0]))
            for first in (0, 1, 2, None) if n > 5 else (-1,):
                yield ("assign", name, mode, first, deep)
    for name in small2():
        for mode in MODES:
            yield ("sections", name, mode, deep)
        yield ("single", name)
    for name in ("quad", "hex", "hp"):
        yield ("multi", name)
    n = len(S.grow(2, S.T3)[0])
    for k in range(0, n, 25):
        yield ("grown", k, 25, deep)


def run(case, ctx):
    kind = case[0]
    if kind == "assign":
        _, name, mode, first, deep = case
        cells, xyz = small()[name]
        nb = len(bfaces(cells))
        lab = (0, 1, None) if nb > 4 and not deep else (0, 1, 2, None)
        if first == 2 and 2 not in lab:
            return
        for i, a in enumerate(itertools.product(lab, repeat=nb)):
            if first != -1 and a[0] != first:
                continue
            for fam in range(len(FAMS)) if nb < (5 if deep else 4) else (i % len(FAMS),):
                m = model(cells, xyz, a, mode, fam, gc=(0, 1, 2)[i % 3])
                ctx.attempt(check_read, ctx, m, sig="assign", what=f"{case} {a} fam {fam}")
            if len(ctx.fails) > 5:
                return
        ctx.sample(f"{name}: all assignments of {nb} boundary faces to conditions given by {mode}")
    elif kind == "sections":
        _, name, mode, deep = case
        cells, xyz = small2()[name]
        nb = len(bfaces(cells))
        a = [(0, 1, 2, None, 1, 0)[i % 6] for i in range(nb)]
        base = model(cells, xyz, a, mode, 0)
        for split in ("type", "run", "cell"):
            ns = len(model(cells, xyz, a, mode, 0, split)["zones"][0]["sections"])
            perms = itertools.permutations(range(ns)) if ns <= (6 if deep else 4) else \
                [tuple(range(ns)), tuple(range(ns))[::-1]] + [tuple(range(r, ns)) + tuple(range(r)) for r in range(1, ns)] + [tuple(sorted(range(ns), key=lambda i: (i * 7) % 11))]
            for i, perm in enumerate(perms):
                for names in range(3) if deep else (i % 3,):
                    ex = ((), ("cells",), ("nodes",), ("cells", "nodes", "low"), ("low",))[(i + names) % 5]
                    m = model(cells, xyz, a, mode, (i + names) % len(FAMS), split, perm, names, ex, gc=i % 3)
                    m["track_order"] = bool(i % 2)
                    kw = {"itype": (np.int32, np.int64)[i % 2], "flat": bool(names % 2), "ftype": np.float64}
                    ctx.attempt(check_read, ctx, m, kw, sig="sections", what=f"{case} {split} {perm} names {names} {ex}")
                if len(ctx.fails) > 5:
                    return
        if R.DIM[cells[0][0]] == 2:
            m = model(cells, [p[:2] for p in xyz], a, mode, 0, physdim=2)
            ctx.attempt(check_read, ctx, m, sig="phys2", what=f"{name} physical dimension 2")
    elif kind == "single":
        # one condition listing any number of faces (as many as cells in particular), and every node subset
        cells, xyz = small2()[case[1]]
        nb, n = len(bfaces(cells)), len(xyz)
        for k in range(1, nb + 1):
            for mode in ("face", "elem", "vertex"):
                for r in range(nb):
                    a = [0 if (i - r) % nb < k else None for i in range(nb)]
                    ctx.attempt(check_read, ctx, model(cells, xyz, a, mode, 0), sig="single", what=f"{case} {mode} {k} faces from {r}")
        for k in range(1, n + 1) if n <= 9 else ():
            for sub in itertools.combinations(range(1, n + 1), k):
                m = model(cells, xyz, [None] * nb, "vertex", 0)
                m["zones"][0]["bcs"] = [dict(name="nodes", type="BCWall", family="some nodes", list=("PointList", "Vertex", list(sub)))]
                ctx.attempt(check_read, ctx, m, sig="subset", what=f"{case} nodes {sub}")
    elif kind == "multi":
        cells, xyz = small2()[case[1]]
        nb = len(bfaces(cells))
        a = [i % 3 for i in range(nb)]
        for mode in MODES:
            m = model(cells, xyz, a, mode, 0)
            z2 = model(cells[:1], xyz, [i % 2 for i in range(len(bfaces(cells[:1])))], mode, 1)["zones"][0]
            z2["name"] = "B"
            z2["xyz"] = [tuple(2.0 * x for x in p) for p in xyz]
            m["zones"].append(z2)
            for z in ("zone A", "B"):
                ctx.attempt(check_read, ctx, m, {}, z, sig="zone", what=f"{case} zone {z}")
            m["families"] = ["fam 0", "walls"]
            ctx.attempt(check_read, ctx, m, {}, "B", sig="zone", what=f"{case} with families")
    else:
        _, k, w, deep = case
        for j, cells in enumerate(S.grow(2, S.T3)[0][k:k + w]):
            n = 1 + max(x for _, nn in cells for x in nn)
            xyz = S.fake_coords(n)
            a = [(0, 1, None, 2)[(i + j) % 4] for i in range(len(bfaces(cells)))]
            for mode in MODES if deep else MODES[j % 5:j % 5 + 1]:
                m = model(cells, xyz, a, mode, j % len(FAMS), ("type", "run", "cell")[j % 3], names=j % 3)
                ctx.attempt(check_read, ctx, m, sig="grown", what=f"grown {cells} {mode}")
