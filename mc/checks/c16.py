"""C16: GMSH ASCII files of format 2.x and 4.1.

State space: model meshes x assignments of boundary elements to entities and of entities to physical groups (all of them on
small meshes) x layouts of the file (node tags and listing, node blocks, order and splitting of element blocks, tag counts,
additional sections).  Every state is written in both formats by an independent writer and read by the real reader."""
import itertools
import os

import numpy as np

from .. import adapter as A
from .. import gmshref as GM
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from ..ic3util import tmp

import cfdtools.gmsh as gmsh  # noqa: E402

PROP, LEVEL = "C16", "model_checking"
ASSUMPTIONS = ["linear elements, formats 2.x and 4.1", "the group names fluid and int_fluid are reserved by the reader for the domain", "cells belong to at most one physical group in version 2 "
               "(GMSH writes them once per group)", "marks are judged when at least one group of the file has a name"]


def bounds(tier):
    return "every assignment of the boundary elements of the small meshes to <=3 entities/<=3 group patterns; every layout option pair; all node-block compositions of 4..6 nodes"


def bfaces(cells):
    _, b = R.extract(dict(enumerate(cells)))
    return [b[k][0] for k in sorted(b, key=sorted)]


FT = {2: "bar2", 3: "tri3", 4: "quad4"}


def model(cells, xyz, assign, groups, names, tags=None, order=None, place="after", volgroups=(1,), volents=1, extra_low=0, ent0=1, gap=0, rot=0):
    """assign: entity number of every boundary face (None: not in the file); groups: physical tags of each entity; names: [(dim, tag, name)]"""
    dim = R.DIM[cells[0][0]]
    n = len(xyz)
    tags = list(range(1, n + 1)) if tags is None else tags
    order = list(range(n)) if order is None else order
    tag = lambda nodes: tuple(tags[i] for i in nodes)
    ents, elems, bel = [], [], []
    used = sorted({a for a in assign if a is not None})
    for k in range(len(groups)):
        ents.append((dim - 1, ent0 + k * (1 + gap), list(groups[k])))
    for f, a in zip(bfaces(cells), assign):
        if a is not None:
            f = f[rot % len(f):] + f[:rot % len(f)]
            bel.append((dim - 1, ent0 + a * (1 + gap), FT[len(f)], tag(f)))
    vol = []
    for v in range(volents):
        ents.append((dim, ent0 + v, list(volgroups)))
    for i, (t, nodes) in enumerate(cells):
        vol.append((dim, ent0 + i % volents, t, tag(nodes)))
    low = []
    if extra_low:
        ents.append((0, ent0, [1] if extra_low > 1 else []))
        low.append((0, ent0, "node1", (tags[0],)))
        if dim == 3:
            ents.append((1, ent0, [1, 2] if extra_low > 1 else []))
            f = bfaces(cells)[0]
            low += [(1, ent0, "bar2", tag((f[0], f[1]))), (1, ent0, "bar2", tag((f[1], f[2])))]
    if place == "after":
        elems = low + vol + bel
    elif place == "before":
        elems = bel + low + vol
    elif place == "ent":
        elems = low + sorted(bel) + sorted(vol)
    else:  # interleaved
        elems = [x for p in itertools.zip_longest(bel, vol, low) for x in p if x is not None]
    return dict(nodes=[(tags[i], tuple(xyz[i])) for i in order], ents=ents, elems=elems, names=list(names), nbound=len(used) % 4)


def read(text):
    p = tmp(".msh")
    with open(p, "w", newline="") as f:
        f.write(text)
    try:
        r = gmsh.reader(p)
        r.read_data()
        m = r.export_mesh()
        return r, m
    finally:
        os.unlink(p)


def check_read(text, m, what):
    r, mesh = read(text)
    nodes, cells, marks = GM.expected(m)
    xyz = A.coords(mesh)
    require(mesh.nnode == len(nodes) and xyz.shape == (len(nodes), 3), f"{what}: {mesh.nnode} nodes instead of {len(nodes)}", "nodes")
    by = {p: t for t, p in nodes.items()}
    require(len(by) == len(nodes), "model nodes are not distinct")
    got = [tuple(p) for p in xyz.tolist()]
    require(sorted(got) == sorted(by), f"{what}: coordinates differ", "coords")
    tag = [by[p] for p in got]
    cc = A.cells(mesh)
    require(sorted(cc) == list(range(len(cells))) and mesh.ncell == len(cells) and r.ncell == len(cells), f"{what}: {len(cc)} cells numbered {sorted(cc)[:9]}, {len(cells)} expected", "cells")
    require(sorted((t, tuple(tag[i] for i in n)) for t, n in cc.values()) == sorted(cells), f"{what}: cells differ", "cells")
    if m["names"]:
        mk = A.marks(mesh)
        require(sorted(mk) == sorted(marks), f"{what}: marks {sorted(mk)} instead of {sorted(marks)}", "marks")
        for n, b in mk.items():
            require(b.name == n and b.nodebased() and b.type == "boundary", f"{what}: mark {n} is {b.geodim} {b.type}", "marks")
            require({tag[int(i)] for i in b.index.list()} == marks[n], f"{what}: mark {n} covers other nodes than its elements", "marks")
    return mesh


def both(ctx, m, kw2, kw4, what):
    ctx.state(repr(m), repr(kw2), repr(kw4))
    for v, text in ((2, lambda: GM.v2(m, **kw2)), (4, lambda: GM.v4(m, **kw4))):
        if (v == 2 and kw2 is None) or (v == 4 and kw4 is None):
            continue
        ctx.attempt(check_read, text(), m, f"{what} v{v}", what=f"{what} v{v}")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")


# patterns of groups of 3 entities and names
GROUPS = [([[1], [2], [3]], [(0, 1, "top"), (0, 2, "wall left"), (0, 3, "b-3")]),
          ([[1], [1], [2]], [(0, 1, "wall"), (0, 2, "in")]),
          ([[5], [], [5]], [(0, 5, "in let")]),
          ([[2], [1], [9]], [(0, 1, "a"), (0, 2, "b"), (1, 9, "volume nine"), (1, 1, "vol")]),
          ([[1, 2], [2], [3, 1]], [(0, 1, "a"), (0, 2, "b"), (0, 3, "c")]),
          ([[3], [4], [3]], [(0, 3, "x  y"), (1, 1, "FLUID"), (1, 3, "solid"), (1, 4, "other")])]


def small():
    tri = ((("tri3", (0, 1, 2)),), [(0.0, 0, 0), (1, 0, 0), (0, 1, 0)])
    tet = ((("tetra4", (0, 1, 2, 3)),), [tuple(map(float, p)) for p in R.UNIT["tetra4"]])
    return {"tri": tri, "quad": S.grid2d(1, 1, ("quad4",)), "trq": S.grid2d(2, 1, ("quad4", "tri3")), "tet": tet,
            "pyr": ((("pyra5", (0, 1, 2, 3, 4)),), R.UNIT["pyra5"]), "prism": ((("prism6", (0, 1, 2, 3, 4, 5)),), R.UNIT["prism6"]),
            "hex": S.hexgrid(1, 1, 1), "hp": S.mixedgrid(("hexa8", "pyra5")), "hpr": S.mixedgrid(("prism6", "hexa8")), "tet6": S.hexgrid(1, 1, 1, "tetra4"),
            "g22": S.grid2d(2, 2, ("tri3", "quad4"))}


def gnames(pat, dim):
    groups, nm = pat
    return groups, [(dim - 1 + d, t, n) for d, t, n in nm]


def compositions(n, k):
    """all ways of writing n as k non-negative parts"""
    for cut in itertools.combinations(range(n + k - 1), k - 1):
        c = (-1,) + cut + (n + k - 1,)
        yield [b - a - 1 for a, b in zip(c, c[1:])]


def tagmaps(n):
    yield list(range(1, n + 1)), list(range(n))
    yield list(range(n, 0, -1)), list(range(n))
    yield list(range(1, n + 1)), list(range(n))[::-1]
    yield [10 * i + 3 for i in range(n)], list(range(n))
    yield [10 * ((5 * i) % n if n % 5 else (3 * i) % n) + 3 for i in range(n)] if len({(5 * i) % n if n % 5 else (3 * i) % n for i in range(n)}) == n else \
        [7 * (n - i) for i in range(n)], list(range(n))[::-1]
    yield [i + 1 + (i > n // 2) * 1000 for i in range(n)], list(range(1, n)) + [0]


def cases(tier, seed):
    deep = tier == "thorough"
    for name in ("tri", "quad", "tet", "pyr", "prism", "hex", "trq"):
        for g in range(len(GROUPS)):
            yield ("assign", name, g, deep)
    for name in small():
        for g in range(len(GROUPS)):
            yield ("layout", name, g, deep)
    for name in ("tri", "quad", "tet", "pyr", "prism"):
        yield ("blocks", name, deep)
    for name in ("tri", "quad", "tet") + (("pyr",) if deep else ()):
        yield ("tags", name, deep)
    grown = S.grow(2, S.T3)[0]
    for k in range(0, len(grown), 25):
        yield ("grown", k, 25, seed, deep)


def run(case, ctx):
    kind = case[0]
    if kind == "assign":
        _, name, g, deep = case
        cells, xyz = small()[name]
        dim = R.DIM[cells[0][0]]
        groups, names = gnames(GROUPS[g], dim)
        nb = len(bfaces(cells))
        for i, a in enumerate(itertools.product((0, 1, 2, None), repeat=nb)):
            m = model(cells, xyz, a, groups, names, place=("after", "before", "ent", "mix")[i % 4], rot=i)
            both(ctx, m, {}, {"merge": bool(i % 2)}, f"{name} faces of entities {a} groups {groups}")
            if len(ctx.fails) > 5:
                return
        ctx.sample(f"{name}: all assignments of {nb} boundary elements to 3 entities in groups {groups}")
    elif kind == "layout":
        _, name, g, deep = case
        cells, xyz = small()[name]
        dim = R.DIM[cells[0][0]]
        groups, names = gnames(GROUPS[g], dim)
        nb = len(bfaces(cells))
        a = [(0, 1, 2, 1, 0, 2, 2, 0)[i % 8] for i in range(nb)]
        n = len(xyz)
        for place, (tags, order), low, volents, ent0, gap in itertools.product(("after", "before", "ent", "mix"), tagmaps(n), (0, 1, 2), (1, 2), (1, 4), (0, 5)):
            m = model(cells, xyz, a, groups, names, tags, order, place, (1,), volents, low, ent0, gap)
            ex = ((), ("comments",), ("periodic", "data"))[(ent0 + low + volents) % 3]
            k = n // 2
            both(ctx, m, {"ntags": 2 + (low + ent0) % 3, "extra": ex, "eol": "\r\n" if gap else "\n"},
                 {"nblocks": [k, 0, n - k] if low else [1, n - 2, 1], "extra": ex, "parametric": bool(gap), "merge": volents == 1, "start": ent0, "reverse": low == 1, "eol": "\r\n" if gap else "\n"},
                 f"{name} {place} tags {tags[:3]} low {low} volents {volents} ent0 {ent0} gap {gap}")
            if len(ctx.fails) > 5:
                return
        for vg, names2 in (((), names), ((1,), []), ((), [])):  # domain without group, files without names
            m = model(cells, xyz, a, groups, names2, volgroups=vg)
            both(ctx, m, {}, {}, f"{name} vg {vg}")
        m = model(cells, xyz, a, [[], [], []], [], volgroups=())
        both(ctx, m, None, {"entities": False}, f"{name} without entities")
        m = model(cells, xyz, a, groups, names, volgroups=(1, 2))
        both(ctx, m, None, {}, f"{name} cells in two groups")
    elif kind == "blocks":
        _, name, deep = case
        cells, xyz = small()[name]
        dim = R.DIM[cells[0][0]]
        groups, names = gnames(GROUPS[0], dim)
        nb = len(bfaces(cells))
        a = [i % 3 for i in range(nb)]
        for tags, order in list(tagmaps(len(xyz)))[:: 1 if deep else 2]:
            m = model(cells, xyz, a, groups, names, tags, order)
            for k in range(1, 5 if deep else 4):
                for c in compositions(len(xyz), k):
                    for par in (False, True):
                        both(ctx, m, None, {"nblocks": c, "parametric": par}, f"{name} node blocks {c}")
    elif kind == "tags":
        _, name, deep = case
        cells, xyz = small()[name]
        dim = R.DIM[cells[0][0]]
        groups, names = gnames(GROUPS[1], dim)
        n = len(xyz)
        a = [i % 3 for i in range(len(bfaces(cells)))]
        for tags in itertools.permutations((1, 2, 3, 4, 50)[: n] if n < 5 else range(1, n + 1)):
            for order in itertools.permutations(range(n)):
                m = model(cells, xyz, a, groups, names, list(tags), list(order))
                both(ctx, m, {}, {}, f"{name} tags {tags} listed {order}")
                if len(ctx.fails) > 5:
                    return
    else:
        _, k, w, seed, deep = case
        for j, cells in enumerate(S.grow(2, S.T3)[0][k:k + w]):
            n = 1 + max(x for _, nn in cells for x in nn)
            xyz = S.fake_coords(n)
            a = [(i + j) % 3 for i in range(len(bfaces(cells)))]
            groups, names = gnames(GROUPS[j % len(GROUPS)], 3)
            m = model(cells, xyz, a, groups, names, place=("after", "before", "ent", "mix")[j % 4], volents=1 + j % 2)
            both(ctx, m, {}, {"merge": bool(j % 2)}, f"grown {cells}")
