"""C01 face extraction: each distinct face once, internal iff shared, right cells, outward orientation."""
import numpy as np

from .. import adapter as A
from .. import meshspace as S
from .. import refmesh as R
from ..core import Violation, require

PARENT_COUNTS = {}
PROP, LEVEL = "C01", "model_checking"
ASSUMPTIONS = ["conforming meshes of linear elements with non-degenerate cells",
               "in 2-D only the end nodes of a face are compared, not its direction",
               "the numbering of faces and the first node of an internal face are left free"]
SPACE = []


def bounds(tier):
    return ("all meshes of <=2 cells over tetra/pyramid/prism/hexa and of <=3 cells over tri/quad reachable by gluing, "
            "all 3-cell gluings with " + ("every rotation" if tier == "thorough" else "the 3rd cell in rotation 0 (strided 1/4)")
            + ", 27 closed templates, larger grids; x numbering/blocking variants")


def cases(tier, seed):
    SPACE.clear()
    PARENT_COUNTS.clear()
    PARENT_COUNTS['transitions'] = 0
    R.selftest()
    for n, types in ((1, S.T3), (2, S.T3), (1, S.T2), (2, S.T2), (3, S.T2)):
        st, tr = S.grow(n, types)
        PARENT_COUNTS['transitions'] += tr
        SPACE.extend(("grow", c, "all" if n < 3 else "some") for c in st)
    SPACE.extend(("template", c, "all") for _, c, _ in S.templates())
    big = [S.hexgrid(6, 5, 4)[0], S.hexgrid(4, 4, 3, "tetra4")[0], S.hexgrid(5, 4, 3, "prism6")[0],
           S.hexgrid(3, 3, 3, "pyra5")[0], S.grid2d(9, 8, ("quad4", "tri3", "tri3"))[0], S.hexgrid(1, 1, 40)[0]]
    SPACE.extend(("big", c, "all") for c in big)
    st, tr = S.grow(3, S.T3, rots=(0,) if tier == "quick" else None)
    PARENT_COUNTS['transitions'] += tr
    if tier == "quick":
        st = st[seed % 4::4]
    SPACE.extend(("grow", c, "one") for c in st)
    chunk = 250
    return [(i, min(i + chunk, len(SPACE))) for i in range(0, len(SPACE), chunk)]


def variants(cells, which):
    n = len(cells)
    nn = 1 + max(x for _, c in cells for x in c)
    ident = list(range(nn))
    out = [("plain", "type", None, ident, False)]
    if which == "one":
        return [("perm", "rtype", [(i * 2 + 1) % n if n % 2 else n - 1 - i for i in range(n)], ident, True)]
    out.append(("perm", "rtype", [n - 1 - i for i in range(n)], ident[::-1], True))
    if which == "some":
        return out
    out.append(("noindex", "type", "none", ident, False))
    out.append(("sparse", "type", [(i + 1) % n for i in range(n)], [3 * i + 5 for i in ident], False))
    return out


def build(cells, order, perm, nmap, split):
    """-> (elem_connectivity, model {id: (type, nodes)})"""
    cl = [(t, tuple(nmap[x] for x in c)) for t, c in cells]
    blocks = S.blocks_of(cl, order, perm if isinstance(perm, list) else None)
    model = {}
    if perm == "none":
        k, bl = 0, []
        for t, nodes, _ in blocks:
            for c in nodes:
                model[k] = (t, c)
                k += 1
            bl.append((t, nodes, None))
        return A.make_conn(bl), model
    bl = []
    for t, nodes, ids in blocks:
        for i, c in zip(ids, nodes):
            model[i] = (t, c)
        if split and len(nodes) > 1:  # the same type added in two calls
            h = len(nodes) // 2
            bl.append((t, nodes[:h], ids[:h]))
            bl.append((t, nodes[h:], ids[h:]))
        else:
            bl.append((t, nodes, ids))
    return A.make_conn(bl), model


def judge(model, result):
    intf, intc, bnd, bndc = result
    ri, rb = R.extract(model)
    dim = R.DIM[next(iter(model.values()))[0]]
    got_b = A.face_rows(bnd, bndc) if len(list(bnd.keys())) or rb else {}
    got_i = A.face_rows(intf, intc) if len(list(intf.keys())) or ri else {}
    for what, got, ref in (("boundary", got_b, rb), ("internal", got_i, ri)):
        seen = {}
        for i, (ft, nodes, c) in got.items():
            key = frozenset(nodes)
            require(key in ref, f"{what} face {i} {nodes} is not a {what} face of the mesh")
            require(key not in seen, f"{what} face {nodes} is listed twice")
            seen[key] = 1
            require(ft == R.FACETYPE[len(nodes)] and len(key) == len(nodes), f"{what} face {nodes} has type {ft}")
            owners = [ref[key]] if what == "boundary" else ref[key]
            want = {o[1]: o[0] for o in owners}
            if what == "boundary":
                require(c[0] in want and c[1] == -1, f"boundary face {nodes} -> cells {c}, expected ({list(want)[0]}, -1)")
            else:
                require(set(c) == set(want) and c[0] != c[1], f"internal face {nodes} -> cells {c}, expected {sorted(want)}")
            if dim == 3:
                require(R.norm_rot(tuple(nodes)) == R.norm_rot(want[c[0]]),
                        f"{what} face {nodes} does not point out of cell {c[0]} (outward order {want[c[0]]})")
        require(len(seen) == len(ref), f"{len(ref) - len(seen)} {what} faces are missing: "
                                       f"{[sorted(k) for k in ref if k not in seen][:3]}")
    return len(got_b), len(got_i)


def run(case, ctx):
    lo, hi = case
    for kind, cells, which in SPACE[lo:hi]:
        ctx.state(cells)
        for name, order, perm, nmap, split in variants(cells, which):
            def one():
                ec, model = build(cells, order, perm, nmap, split)
                nb, ni = judge(model, ec.create_faces_from_elems())
                ctx.count("traces_validated_against_impl")
                ctx.outcome(nb, ni, sorted(t for t, _ in model.values()))
                ctx.sample({"variant": name, "cells": cells[:4], "boundary": nb, "internal": ni})
            ctx.attempt(one, sig=f"{name}:{','.join(t for t, _ in cells)[:60]}", what=f"{name} {cells if len(cells) < 4 else len(cells)}")
