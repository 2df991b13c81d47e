"""C02 node marks -> boundary faces they span; completion marks exactly the leftovers."""
import itertools

from .. import adapter as A
from .. import meshspace as S
from .. import refmesh as R
from ..core import bfs, require

PROP, LEVEL = "C02", "model_checking"
ASSUMPTIONS = ["conforming meshes; marks are node marks ('node', 'bdnode', 'intnode') or face marks ('face', 'bdface')",
               "the name given to the extra mark is free as long as no existing mark is lost"]
SPACE = []
DEPTH = {"quick": 4, "thorough": 5}


def bounds(tier):
    return (f"every node subset of every mesh of <=2 cells (3-D), <=3 cells (2-D) and of small grids with <={14 if tier == 'thorough' else 12} nodes; every pair of node "
            f"subsets on 1-cell and 2-cell 2-D meshes; all histories of mark/convert/complete/remove operations to depth {DEPTH[tier]}")


def meshes(tier):
    out = []
    for n, t in ((1, S.T3), (1, S.T2), (2, S.T2)):
        out += S.grow(n, t)[0]
    out += S.grow(2, S.T3)[0] if tier == "thorough" else S.grow(2, S.T3)[0][::7]
    out += S.grow(3, S.T2)[0] if tier == "thorough" else S.grow(3, S.T2)[0][::7]
    out += [S.grid2d(2, 2, ("quad4",))[0], S.grid2d(2, 2, ("quad4", "tri3"))[0], S.grid2d(3, 1, ("tri3",))[0],
            S.hexgrid(1, 1, 1, "prism6")[0], S.hexgrid(1, 1, 1, "pyra5")[0], S.hexgrid(1, 1, 1, "tetra4")[0],
            S.hexgrid(2, 1, 1)[0], S.mixedgrid(("hexa8", "prism6"))[0]]
    return out


def cases(tier, seed):
    SPACE.clear()
    SPACE.extend(meshes(tier))
    step = 4 if tier == "quick" else 8
    out = [("subsets", i, min(i + step, len(SPACE))) for i in range(0, len(SPACE), step)]
    small = [i for i, c in enumerate(SPACE) if nn(c) <= 6][:24 if tier == "quick" else 60]
    out += [("pairs", i, i + 1) for i in small]
    hist = [S.grow(1, ("tetra4",))[0][0], S.grow(2, ("tri3",))[0][0], S.grow(1, ("prism6",))[0][0], S.grid2d(2, 1, ("quad4",))[0]]
    out += [("hist", c, None) for c in hist]
    return out


def nn(cells):
    return 1 + max(x for _, n in cells for x in n)


def boundary_rows(cells):
    _, b = R.extract(dict(enumerate(cells)))
    return set(b)


def got(m):
    """marks as {name: (geodim, type, tuple of frozenset faces in order)}"""
    rows = A.mesh_faces(m, "boundary")
    out = {}
    for n, (g, t, ind) in A.mark_items(m).items():
        require(all(i in rows for i in ind), f"mark {n} contains face numbers that do not exist: {ind}")
        require(len(set(ind)) == len(ind), f"mark {n} contains a face twice")
        out[n] = (g, t, frozenset(frozenset(rows[i][1]) for i in ind))
    return out


def fresh(cells):
    m = A.make_mesh(S.blocks_of(cells), S.fake_coords(nn(cells)))
    m.make_face_connectivity()
    return m


def facesof(bnd, nodes):
    s = set(nodes)
    return frozenset(f for f in bnd if f <= s)


def judge_completion(m, before, bnd):
    """m.make_unmarked_BC() was called when the marks were `before`"""
    after = got(m)
    for n, v in before.items():
        require(after.get(n) == v, f"completion changed mark {n}: {v} -> {after.get(n)}")
    extra = [n for n in after if n not in before]
    missing = bnd - frozenset().union(*[v[2] for v in before.values()]) if before else frozenset(bnd)
    require(len(extra) <= 1, f"completion added {extra}")
    require(bool(extra) == bool(missing), f"{len(missing)} unmarked faces but marks added: {extra}")
    if extra:
        require(after[extra[0]][2] == missing, f"the extra mark holds {len(after[extra[0]][2])} faces, unmarked are {len(missing)}")
        require(after[extra[0]][0] == "bdface" and after[extra[0]][1] == "boundary", f"extra mark is {after[extra[0]][:2]}")


TYPES = ["boundary", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz", "internal"]
GEO = ["bdnode", "node", "intnode"]


def run_subsets(cells, ctx):
    n = nn(cells)
    bnd = boundary_rows(cells)
    subs = [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    for lo in range(0, len(subs), 128):
        m = fresh(cells)
        want = {}
        for j, s in enumerate(subs[lo:lo + 128]):
            order = list(s) if j % 2 else list(reversed(s)) + list(s[:1])
            t, g = TYPES[j % 6], GEO[j % 3]
            m.add_boco(A.make_mark(f"m{j}", g, t, order))
            want[f"m{j}"] = ("bdface", t, facesof(bnd, s))
        m.bocomarks_set_node_to_face()
        g = got(m)
        require(list(g) == list(want), "marks were lost or reordered by the conversion")
        for k in want:
            require(g[k] == want[k], f"mark {k} nodes {subs[lo + int(k[1:])]}: got {g[k]}, expected {want[k]}; cells {cells}")
            ctx.state(cells, subs[lo + int(k[1:])])
        ctx.count("transitions", len(want))
        ctx.outcome(*sorted(len(v[2]) for v in want.values()))
    ctx.count("traces_validated_against_impl")
    ctx.sample({"cells": cells, "subsets": len(subs), "boundary_faces": len(bnd)})


def run_pairs(cells, ctx):
    n = nn(cells)
    bnd = boundary_rows(cells)
    subs = [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]
    m = fresh(cells)
    for a in subs:
        for b in subs:
            for name in list(A.marks(m)):
                m.remove_boco(name)
            m.add_boco(A.make_mark("a", "bdnode", "boundary", a))
            m.add_boco(A.make_mark("b", "bdnode", "perio_cart", b))
            m.bocomarks_set_node_to_face()
            g = got(m)
            require(g == {"a": ("bdface", "boundary", facesof(bnd, a)), "b": ("bdface", "perio_cart", facesof(bnd, b))},
                    f"marks {a} {b} -> {g}; cells {cells}")
            m.make_unmarked_BC()
            judge_completion(m, g, bnd)
            m.bocomarks_set_node_to_face()
            m.make_unmarked_BC()
            require(len(got(m)) <= 3, "repeating the completion adds marks")
            ctx.count("transitions", 2)
            ctx.state("pair", cells, a, b)
    ctx.count("traces_validated_against_impl")


class Sys:
    def __init__(self, cells):
        self.m = fresh(cells)
        self.bnd = boundary_rows(cells)
        self.model = {}  # name -> (kind, type, nodes or faces)

    def convert(self):
        self.m.bocomarks_set_node_to_face()
        for k, (g, t, v) in list(self.model.items()):
            if g == "node":
                self.model[k] = ("face", t, facesof(self.bnd, v))


def run_hist(cells, ctx):
    depth = DEPTH[ctx.tier]
    n = nn(cells)
    frames = [tuple(range(n)), tuple(range(n - 1)), tuple(range(1, n))]

    def events(s):
        ev = [("node", nm, i) for nm in ("a", "unmarked_faces") for i in range(3)]
        ev += [("face", nm) for nm in ("a", "unmarked_faces", "b")]
        ev += [("remove", k) for k in s.model]
        if all(v[0] == "face" for v in s.model.values()):
            ev.append(("complete",))
        ev.append(("convert",))
        return ev

    def step(s, ev):
        if ev[0] == "node":
            s.m.add_boco(A.make_mark(ev[1], "bdnode", "boundary", frames[ev[2]]))
            s.model[ev[1]] = ("node", "boundary", frames[ev[2]])
        elif ev[0] == "face":
            rows = A.mesh_faces(s.m, "boundary")
            s.m.add_boco(A.make_mark(ev[1], "bdface", "perio_cart", [0]))
            s.model[ev[1]] = ("face", "perio_cart", frozenset([frozenset(rows[0][1])]))
        elif ev[0] == "remove":
            s.m.remove_boco(ev[1])
            del s.model[ev[1]]
        elif ev[0] == "convert":
            s.convert()
        else:
            before = got(s.m)
            s.m.make_unmarked_BC()
            judge_completion(s.m, before, s.bnd)
            for k, v in got(s.m).items():
                if k not in before:
                    s.model[k] = ("face", v[1], v[2])

    def check(s, hist):
        rows = A.mesh_faces(s.m, "boundary")
        items = A.mark_items(s.m)
        require(set(items) == set(s.model), f"marks {set(items)} instead of {set(s.model)}")
        for k, (g, t, v) in s.model.items():
            require(items[k][1] == t, f"type of {k}: {items[k][1]} instead of {t}")
            if g == "node":
                require(items[k][0] == "bdnode" and set(items[k][2]) == set(v), f"node mark {k} changed")
            else:
                require(items[k][0] == "bdface" and frozenset(frozenset(rows[i][1]) for i in items[k][2]) == v, f"face mark {k} changed")

    def canon(s):
        return sorted((k, g, t, sorted(sorted(x) if g == "face" else [x] for x in v)) for k, (g, t, v) in s.model.items())

    bfs(ctx, lambda: Sys(cells), events, step, canon, check, depth, ("hist", cells))
    ctx.count("traces_validated_against_impl")


def run(case, ctx):
    kind, lo, hi = case
    if kind == "hist":
        run_hist(lo, ctx)
        return
    for c in SPACE[lo:hi]:
        ctx.attempt(run_subsets if kind == "subsets" else run_pairs, c, ctx, sig=f"{kind}", what=f"{kind} {c}")
