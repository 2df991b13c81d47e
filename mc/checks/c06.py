"""C06 extrusion = exact stack of layers with marks; result usable for face generation and export."""
import itertools

import numpy as np

from .. import adapter as A
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from .c02 import nn

PROP, LEVEL = "C06", "model_checking"
ASSUMPTIONS = ["2-D cells numbered 0..n-1 (any permutation); the numbering of the extruded cells is free but contiguous",
               "volume and orientation are compared for increasing planes along a direction with positive z",
               "a mark is not named like the two plane marks"]
SPACE = []
PLANES = [(0.0, 1.0), (0.0, 0.5, 2.0), (0.0, 0.25, 0.5, 1.0), (-1.0, 3.0), (1.0, 1.25)]
DIRS = [None, (0.0, 0.0, 2.0), (0.5, 0.25, 1.0)]


def bounds(tier):
    return ("all 2-D gluings of <=3 triangles/quadrangles" + ("" if tier == "thorough" else " (3-cell ones: residue class seed mod 4)")
            + ", all triangle/quad patterns of 2x2 grids, larger grids x cell numberings x 5 plane lists x 3 directions x mark layouts "
            "(every single boundary edge; alternate edges; an open path; an empty mark; a mark listing nodes several times)")


def cases(tier, seed):
    SPACE.clear()
    for n in (1, 2, 3):
        g = S.grow(n, S.T2)[0]
        if n == 3 and tier == "quick":
            g = g[seed % 4::4]
        SPACE.extend(("grow", c, S.fake_coords(nn(c))) for c in g)
    pats = list(itertools.product(("quad4", "tri3"), repeat=4))
    SPACE.extend(("grid",) + S.grid2d(2, 2, p) for p in pats)
    SPACE.extend(("grid",) + S.grid2d(a, b, k) for a, b, k in [(5, 4, ("quad4",)), (3, 3, ("tri3",)), (1, 7, ("quad4", "tri3")), (4, 2, ("tri3", "tri3", "quad4"))])
    if tier == "thorough":
        SPACE.extend(("grid",) + S.grid2d(3, 2, p) for p in itertools.product(("quad4", "tri3"), repeat=6))
    return [(i, min(i + 8, len(SPACE))) for i in range(0, len(SPACE), 8)]


def edges(cells):
    _, b = R.extract(dict(enumerate(cells)))
    return sorted(sorted(k) for k in b)


def mark_layouts(cells):
    e = edges(cells)
    yield "none", []
    yield "each", [(f"e{i}", "node" if i % 2 else "bdnode", "boundary", x, "list") for i, x in enumerate(e[:4])]
    yield "twice", [("twice", "bdnode", "boundary", (e[0] + e[len(e) // 2] + e[0])[::-1], "list")]
    yield "mixed", [("a", "bdnode", "boundary", sorted(set(sum(e[::3], []))), "list"), ("empty", "bdnode", "boundary", [], "list"),
                    ("rng", "intnode", "perio_cart", list(range(0, min(2, nn(cells)))), "range")]


def expected(cells, order, n0, planes):
    """extruded cells as a set of canonical (type, nodes)"""
    out = []
    for t, c in cells:
        for k in range(len(planes) - 1):
            out.append(canon("prism6" if t == "tri3" else "hexa8", tuple(x + k * n0 for x in c) + tuple(x + (k + 1) * n0 for x in c)))
    return sorted(out)


def canon(t, n):
    h = len(n) // 2
    j = n[:h].index(min(n[:h]))
    return t, n[:h][j:] + n[:h][:j] + n[h:][j:] + n[h:][:j]


def area(cells, xyz):
    return sum(R.area_vector([tuple(xyz[i]) for i in c])[2] for _, c in cells)


def build(cells, xyz, order, marks):
    perm = [(i * 2 + 1) % len(cells) if len(cells) % 2 else len(cells) - 1 - i for i in range(len(cells))] if order == "perm" else None
    m = A.make_mesh(S.blocks_of(cells, "rtype" if order == "perm" else "type", perm), xyz)
    for name, geo, typ, nodes, rep in marks:
        mk = A.make_mark(name, geo, typ, nodes)
        if rep == "range" and nodes:
            mk.index = A.indexlist(irange=[nodes[0], nodes[-1]])
        m.add_boco(mk)
    return m


def one(kind, cells, xyz, order, marks, planes, direction, ctx, export):
    n0 = len(xyz)
    d = np.array((0.0, 0.0, 1.0) if direction is None else direction)
    m = build(cells, xyz, order, marks)
    src = (A.cells(m), A.coords(m).tolist(), A.mark_items(m))
    kw = {"direction": None if direction is None else np.array(direction), "extrude": list(planes)}
    if kind == "grow" and order == "plain":
        kw["domain"] = "zone"
    e = m.export_extruded(**kw)
    require((A.cells(m), A.coords(m).tolist(), A.mark_items(m)) == src, "extrusion modified its source")
    P = len(planes)
    require(e.nnode == n0 * P, f"{e.nnode} nodes for {P} planes of {n0}")
    want = np.concatenate([np.asarray(xyz, float) + s * d for s in planes])
    got = A.coords(e)
    require(got.shape == want.shape and np.allclose(got, want, rtol=1e-14, atol=1e-14), "coordinates of the extruded nodes")
    ec = A.cells(e)
    require(sorted(ec) == list(range(len(cells) * (P - 1))) and e.ncell == len(ec), f"cells numbered {sorted(ec)[:12]}, ncell {e.ncell}")
    require(sorted(canon(*v) for v in ec.values()) == expected(cells, order, n0, planes), f"extruded cells {list(ec.items())[:4]}")
    mk = A.mark_items(e)
    exp = {name: {x + k * n0 for x in nodes for k in range(P)} for name, _, _, nodes, _ in marks}
    for name, geo, typ, nodes, _ in marks:
        require(name in mk and set(mk[name][2]) == exp[name] and mk[name][:2] == (geo, typ), f"mark {name}: {mk.get(name)}")
    dom = kw.get("domain", "fluid")
    used = {x for _, c in cells for x in c}
    exp[dom + "0"], exp[dom + "1"] = used, {x + (P - 1) * n0 for x in used}
    require(sorted(mk) == sorted(exp), f"marks {sorted(mk)}")
    for k in (dom + "0", dom + "1"):
        require(set(mk[k][2]) == exp[k] and mk[k][1] == "boundary", f"plane mark {k}: {mk[k]}")
    ctx.count("transitions")
    ctx.outcome(len(ec), sorted(len(v) for v in exp.values()))
    if not export:
        return
    _, rb = R.extract(ec)
    zones, seen, disjoint = {}, set(), True
    for name in mk:
        fs = {f for f in rb if f <= exp[name]}
        disjoint &= not (fs & seen)
        seen |= fs
        typ = {x[0]: x[2] for x in marks}.get(name, "boundary")
        zones[name] = (typ, fs, None)
    if disjoint:
        p = I.parse(U.write(e, 3 if order == "plain" else 2))
        U.check_written(p, ec, got, zones, 3 if order == "plain" else 2)
        ctx.count("traces_validated_against_impl")
        if kind == "grid":
            v = sum(R.volume(t, [tuple(p["xyz"][i]) for i in n]) for t, n in ec.values())
            h = (planes[-1] - planes[0]) * d[2]
            require(abs(v - area(cells, xyz) * h) < 1e-9 * max(1, abs(v)), f"volume {v} instead of {area(cells, xyz) * h}")


def run(case, ctx):
    lo, hi = case
    for i in range(lo, hi):
        kind, cells, xyz = SPACE[i]
        for order in ("plain", "perm"):
            for lname, marks in mark_layouts(cells):
                for ip, planes in enumerate(PLANES):
                    for idr, dr in enumerate(DIRS):
                        ctx.state(cells, order, lname, planes, dr)
                        ctx.attempt(one, kind, cells, xyz, order, marks, planes, dr, ctx, (ip + idr) % 2 == 0 or ctx.tier == "thorough",
                                    sig=f"{kind}:{order}:{lname}", what=f"{order} {lname} {planes} {dr} {cells}")
    ctx.sample({"cells": SPACE[lo][1][:3], "planes": PLANES, "marks": [x[0] for x in mark_layouts(SPACE[lo][1])]})
