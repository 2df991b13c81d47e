"""C03 boundary reindexing is a pure renumbering into one contiguous range per mark."""
import itertools

from .. import adapter as A
from .. import meshspace as S
from .. import refmesh as R
from ..core import Violation, bfs, require
from .c02 import nn

PROP, LEVEL = "C03", "model_checking"
ASSUMPTIONS = ["marks are face marks covering every boundary face once (completion provides it); an empty mark stays empty",
               "the internal representation of the renumbered marks is not prescribed beyond being contiguous"]
SPACE = []


def bounds(tier):
    k = 8 if tier == "thorough" else 24
    return (f"(2-cell 3-D and 3-cell 2-D gluings: the residue class seed mod {k} of their sorted list) all assignments of boundary faces to 3 marks (any may be empty) x 3 listing orders for every mesh of 1 cell, 2-cell "
            f"gluings and small 2-D meshes with <={7 if tier == 'thorough' else 6} boundary faces; all face listing orders x all cuts into 2 marks for <=5 faces; "
            "all overlapping assignments of <=5 faces to 2 marks refused; all histories of reindex/remove/complete/move/reverse operations to depth "
            + ("6" if tier == "thorough" else "4"))


def cases(tier, seed):
    SPACE.clear()
    lim = 7 if tier == "thorough" else 6
    ms = []
    for n, t in ((1, S.T3), (1, S.T2), (2, S.T2), (3, S.T2), (2, S.T3)):
        g = S.grow(n, t)[0]
        if n == 3 or (n == 2 and t is S.T3):
            g = g[seed % 24::24] if tier == "quick" else g[seed % 8::8]
        ms += g
    ms += [S.grid2d(2, 1, ("quad4", "tri3"))[0], S.hexgrid(1, 1, 1, "prism6")[0], S.hexgrid(1, 1, 1, "pyra5")[0]]
    for c in ms:
        nb = len(R.extract(dict(enumerate(c)))[1])
        if nb <= lim:
            SPACE.append((c, nb))
    out = [("assign", i, min(i + 2, len(SPACE))) for i in range(0, len(SPACE), 2)]
    out += [("orders", i, i + 1) for i, (c, nb) in enumerate(SPACE) if nb <= 5][:16 if tier == "quick" else 100]
    out += [("shared", i, i + 1) for i, (c, nb) in enumerate(SPACE) if nb <= 5][:20]
    hist = [S.grow(1, ("prism6",))[0][0], S.grid2d(2, 1, ("quad4", "tri3"))[0], S.mixedgrid(("hexa8", "prism6"))[0], S.hexgrid(2, 1, 1)[0]]
    out += [("hist", c, None) for c in hist]
    return out


def fresh(cells):
    m = A.make_mesh(S.blocks_of(cells), S.fake_coords(nn(cells)))
    m.make_face_connectivity()
    return m


def view(m):
    """numbering-free observation: faces with nodes and cells; marks as sets of these"""
    rows = A.mesh_faces(m, "boundary")
    mk = {}
    for n, (g, t, ind) in A.mark_items(m).items():
        require(all(i in rows for i in ind) and len(set(ind)) == len(ind), f"mark {n} has bad face numbers {ind}")
        mk[n] = (g, t, frozenset((rows[i][1], rows[i][2]) for i in ind))
    return frozenset(rows.values()), len(rows), A.mesh_faces(m, "internal"), mk, A.cells(m), A.coords(m).tolist(), [
        (n, {k: repr(v) for k, v in b.properties.items()}) for n, b in A.marks(m).items()]


def judge(m, before, order=None):
    after = view(m)
    names = ["boundary faces", "number of faces", "internal faces", "marks", "cells", "coordinates", "mark properties"]
    for nm, a, b in zip(names, before, after):
        require(a == b, f"reindexing changed the {nm}: {str(a)[:300]} -> {str(b)[:300]}")
    used = []
    for n, b in A.marks(m).items():
        ind = [int(i) for i in b.index.list()]
        if ind:
            require(ind == list(range(ind[0], ind[0] + len(ind))), f"mark {n} is {ind} after reindexing")
            require(b.index.type == "range" and [int(x) for x in b.index.range()] == [ind[0], ind[-1]], f"mark {n} was not compressed to a range")
        used += ind
    require(sorted(used) == list(range(after[1])), f"marks do not cover the boundary faces once: {sorted(used)}")
    return tuple(sorted((n, tuple(v)) for n, v in ((n, b.index.list()) for n, b in A.marks(m).items())))


def set_marks(m, lists, geo=("bdface", "face", "bdface"), typ=("boundary", "perio_cart", "boundary")):
    for n in list(A.marks(m)):
        m.remove_boco(n)
    for j, l in enumerate(lists):
        m.add_boco(A.make_mark(f"m{j}", geo[j % 3], typ[j % 3], l, periodic_transform=None if j % 2 == 0 else [1.0 * j] * 16))


def once(m, lists, ctx, twice=True):
    set_marks(m, lists)
    before = view(m)
    m.reindex_boundaryfaces()
    r1 = judge(m, before)
    ctx.count("transitions")
    if twice:
        full = A.mesh_faces(m, "boundary")
        m.reindex_boundaryfaces()
        require(judge(m, before) == r1 and A.mesh_faces(m, "boundary") == full, "reindexing twice changes the numbering again")
        ctx.count("transitions")
    return r1


def run_assign(cells, nb, ctx):
    m = fresh(cells)  # the same mesh is reindexed again and again: any reachable numbering is a legal start
    for asg in itertools.product(range(3), repeat=nb):
        groups = [[f for f in range(nb) if asg[f] == j] for j in range(3)]
        for o in range(3):
            if o == 1:
                groups = [g[::-1] for g in groups]
            elif o == 2:
                groups = [g[1::2] + g[::2] for g in groups]
            r = once(m, groups, ctx, twice=(o == 0))
            ctx.outcome(r)
            ctx.count("traces_validated_against_impl")
        ctx.state(cells, asg)
    ctx.sample({"cells": cells, "boundary_faces": nb, "assignments": 3 ** nb})


def run_orders(cells, nb, ctx):
    m = fresh(cells)
    for p in itertools.permutations(range(nb)):
        for k in range(nb + 1):
            once(m, [list(p[:k]), list(p[k:])], ctx)
            ctx.state("order", cells, p, k)
            ctx.count("traces_validated_against_impl")


def run_shared(cells, nb, ctx):
    for asg in itertools.product((0, 1, 2), repeat=nb):  # 2: in both
        if 2 not in asg:
            continue
        m = fresh(cells)
        set_marks(m, [[f for f in range(nb) if asg[f] in (0, 2)], [f for f in range(nb) if asg[f] in (1, 2)]])
        try:
            m.reindex_boundaryfaces()
        except Exception:
            ctx.count("transitions")
            ctx.state("shared", cells, asg)
            continue
        raise Violation(f"two marks sharing a face were reindexed: {asg} on {cells}: {A.mark_items(m)}")
    ctx.count("traces_validated_against_impl")


def run_hist(cells, ctx):
    """reindex must be safe after any sequence of mark edits"""
    nb = len(R.extract(dict(enumerate(cells)))[1])

    def init():
        m = fresh(cells)
        set_marks(m, [list(range(0, nb, 2)), list(range(1, nb, 2))])
        return m

    def events(m):
        ev = ["reindex", "complete", "faces"]
        for n in A.marks(m):
            ev += [("remove", n), ("reverse", n), ("give", n)]
        return ev

    def complete(m):
        return sum(b.index.size for b in A.marks(m).values()) == nb

    def step(m, ev):
        if ev == "reindex":
            if complete(m):
                before = view(m)
                m.reindex_boundaryfaces()
                judge(m, before)
        elif ev == "complete":
            m.make_unmarked_BC()
            require(complete(m), "completion left unmarked faces")
        elif ev == "faces":
            # faces regenerated from the cells: numbering of the faces restarts, marks must be set again
            m.make_face_connectivity()
            set_marks(m, [list(range(0, nb, 2)), list(range(1, nb, 2))])
        elif ev[0] == "remove":
            m.remove_boco(ev[1])
        elif ev[0] == "reverse":
            b = A.marks(m)[ev[1]]
            b.index = A.indexlist(ilist=b.index.list()[::-1])
        else:  # give the first face of a mark to the last mark
            b, last = A.marks(m)[ev[1]], list(A.marks(m).values())[-1]
            l = b.index.list()
            if b is not last and l:
                b.index = A.indexlist(ilist=l[1:])
                last.index.append(l[:1])

    def check(m, hist):
        rows = A.mesh_faces(m, "boundary")
        ref = {k: v[1] for k, v in R.extract(dict(enumerate(cells)))[1].items()}
        require({frozenset(r[1]): r[2][0] for r in rows.values()} == ref, "boundary faces or their cells were lost")

    def canon(m):
        return (A.mesh_faces(m, "boundary"), [(n, b.index.type, b.index.list()) for n, b in A.marks(m).items()])

    bfs(ctx, init, events, step, canon, check, 6 if ctx.tier == "thorough" else 4, ("hist", cells))
    ctx.count("traces_validated_against_impl")


def run(case, ctx):
    kind, lo, hi = case
    if kind == "hist":
        run_hist(lo, ctx)
        return
    fn = {"assign": run_assign, "orders": run_orders, "shared": run_shared}[kind]
    for c, nb in SPACE[lo:hi]:
        ctx.attempt(fn, c, nb, ctx, sig=kind, what=f"{kind} {c}")
