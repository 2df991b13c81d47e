"""C09 IC3 V2/V3 files written describe exactly the mesh (independent parser)."""
import itertools

import numpy as np

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from .c02 import nn

PROP, LEVEL = "C09", "model_checking"
ASSUMPTIONS = ["mark names are ASCII of 1 to 52 characters (the name field of a section)",
               "no boundary mark is named internal-domain, the name of the internal zone", "an empty mark may be omitted from the file; faces without mark may form one additional boundary zone of any free name",
               "face and node-of-face numbering inside a zone and the rotation of a face are free"]
SPACE = []
VE = list(itertools.product((2, 3), ("native", "little", "big")))
SPECIAL = [0.0, -0.0, 1e-310, 1.7e308, -1e-17, float("inf"), 0.1, 1 / 3, float("nan")]
NAMES = ["a", "ab cd", "x" * 51, "y" * 52, "in-let_1.2", "internal-domain"[:8], "NO_CHECK", "fluid #1"]
KINDS = ["boundary", "perio_cart", "perio_cylx", "perio_cyly", "perio_cylz"]
RDATA = [None, [1.0, 2.0, 3.0], [0.5 * i for i in range(16)], [float("inf"), -0.0, 1e-310] + [0.0] * 12 + [7.0]]


def bounds(tier):
    k = 5 if tier == "quick" else 1
    return ("every mesh of one cell (3-D and 2-D): all assignments of its boundary faces to 2 marks or none x 2 versions x 3 byte orders; all 2-cell gluings"
            + (f" (residue class seed mod {k})" if k > 1 else "") + " of 3-D and 2-D cells, 3-cell 2-D gluings (residue class), templates: 8 mark layouts x 6 formats "
            "x 2 numberings; all mark kinds x periodic data x names (all ordered pairs of 24 names) x special coordinate values; meshes given by their faces only, with every node rotation")


def cases(tier, seed):
    SPACE.clear()
    one = S.grow(1, S.T3)[0] + S.grow(1, S.T2)[0]
    k = 5 if tier == "quick" else 1
    two = S.grow(2, S.T3)[0][seed % k::k]
    two2 = S.grow(2, S.T2)[0] + S.grow(3, S.T2)[0][seed % (4 * k)::4 * k]
    SPACE.extend(("one", c, None) for c in one)
    SPACE.extend(("many", c, None) for c in two2 + two)
    SPACE.extend(("many", c, x) for _, c, x in S.templates())
    SPACE.extend(("many",) + S.grid2d(2, 2, p) for p in itertools.product(("quad4", "tri3"), repeat=4))
    out = []
    for i, (kind, c, _) in enumerate(SPACE):
        if kind == "one":
            nb = len(R.extract(dict(enumerate(c)))[1])
            n = 3 ** nb
            step = 40
            out += [("one", i, a, min(a + step, n)) for a in range(0, n, step)]
    many = [i for i, s in enumerate(SPACE) if s[0] == "many"]
    out += [("many", many[j:j + 4], None, None) for j in range(0, len(many), 4)]
    out += [("attrs", k, v, None) for k in range(len(KINDS)) for v in range(len(RDATA))]
    out += [("names", i, None, None) for i in range(len(G.NASTY))]
    out += [("mixed", i, None, None) for i in range(len(SPACE)) if i % 3 == 0 or tier == "thorough"]
    return out


def is3d(cells):
    return R.DIM[cells[0][0]] == 3


def build(cells, xyz, order):
    n = len(cells)
    perm = None if order == "plain" else [n - 1 - i for i in range(n)]
    m = A.make_mesh(S.blocks_of(cells, "type" if order == "plain" else "rtype", perm), xyz)
    return m, {i if perm is None else perm[i]: c for i, c in enumerate(cells)}


def facemarks(m, spec):
    """spec: [(name, kind, [face keys], rdata)] -> boundary face marks, after face generation"""
    idx = {frozenset(v[1]): k for k, v in A.mesh_faces(m, "boundary").items()}
    for name, kind, keys, rdata in spec:
        m.add_boco(A.make_mark(name, "bdface", kind, [idx[k] for k in keys], periodic_transform=None if rdata is None else np.array(rdata)))


def judge(m, cm, xyz, spec, v, e, ctx):
    data = U.write(m, v, e)
    p = I.parse(data)
    U.check_written(p, cm, xyz, {n: (k, set(f), r) for n, k, f, r in spec}, v, e, orient=is3d(list(cm.values())))
    require(p["npart"] == 1 and p["part"] == [0] * len(cm), "partition of an unpartitioned mesh")
    require(p["params"].get("STEP") == 0 and p["params"].get("TIME") == 0 and not p["data"], f"parameters {p['params']} data {len(p['data'])}")
    ctx.count("traces_validated_against_impl")
    ctx.count("transitions")
    ctx.outcome(tuple(p["zones"]), p["cvofa"])
    return p


def layouts(cells):
    bd = sorted(R.extract(dict(enumerate(cells)))[1], key=sorted)
    yield []
    yield [("all", "boundary", bd, None)]
    yield [(f"f{i}", KINDS[i % 5], [f], RDATA[i % 4] if i % 5 else None) for i, f in enumerate(bd)]
    yield [("odd", "boundary", bd[1::2][::-1], None), ("even", "perio_cart", bd[::2], RDATA[1])]
    yield [("last", "boundary", bd[-1:], None)]
    yield [("e", "boundary", [], None), ("first", "boundary", bd[:1], None), ("rest", "boundary", bd[:0:-1], None)]
    yield [("unmarked", "boundary", bd[:len(bd) // 2], None)]
    yield [("internal", "perio_cylz", bd[:2], RDATA[2])]


def run(case, ctx):
    what, i, a, b = case
    if what == "one":
        _, cells, _ = SPACE[i]
        xyz = S.fake_coords(nn(cells))
        bd = sorted(R.extract(dict(enumerate(cells)))[1], key=sorted)
        for j in range(a, b):
            asg = [j // 3 ** q % 3 for q in range(len(bd))]
            spec = [(f"m{g}", "boundary", [f for f, x in zip(bd, asg) if x == g], None) for g in (1, 2)]
            for v, e in VE:
                ctx.state("one", i, j, v, e)
                ctx.attempt(lambda: one(cells, xyz, spec, v, e, "plain", ctx), sig=f"one:{v}", what=f"{cells} marks {asg} V{v} {e}")
        ctx.sample({"cell": cells[0], "assignments": [a, b], "formats": VE})
    elif what == "many":
        for q in i:
            _, cells, x = SPACE[q]
            xyz = S.fake_coords(nn(cells)) if x is None else x
            for il, spec in enumerate(layouts(cells)):
                for order in ("plain", "perm"):
                    for v, e in VE:
                        ctx.state("many", q, il, order, v, e)
                        ctx.attempt(lambda: one(cells, xyz, spec, v, e, order, ctx), sig=f"many:{il}:{v}", what=f"{cells} layout {il} {order} V{v} {e}")
            # the same boundary given by nodes
            node_marks(cells, xyz, ctx)
    elif what == "attrs":
        cells, _ = S.hexgrid(2, 1, 1)
        bd = sorted(R.extract(dict(enumerate(cells)))[1], key=sorted)
        for iv, c0 in enumerate(SPECIAL):
            xyz = np.array(S.fake_coords(nn(cells)))
            xyz[0], xyz[5, 1], xyz[-1, 2] = c0, c0, -c0
            for nm in NAMES:
                spec = [(nm, KINDS[i], bd[3:5], RDATA[a]), ("other", "boundary", bd[:2], None)]
                for v, e in VE:
                    ctx.state("attrs", i, a, iv, nm, v, e)
                    ctx.attempt(lambda: one(cells, xyz, spec, v, e, "plain", ctx), sig=f"attrs:{v}", what=f"kind {KINDS[i]} rdata {RDATA[a]} name {nm!r} coord {c0} V{v} {e}")
    elif what == "names":
        cells, xyz = S.hexgrid(2, 1, 1)
        bd = sorted(R.extract(dict(enumerate(cells)))[1], key=sorted)
        for nm in G.NASTY:
            if nm != G.NASTY[i]:
                spec = [(nm, "boundary", bd[3:6], None), (G.NASTY[i], "perio_cart", bd[:3], RDATA[1]), ("z", "boundary", bd[6:], None)]
                for v, e in VE:
                    ctx.state("names", i, nm, v, e)
                    ctx.attempt(lambda: one(cells, xyz, spec, v, e, "plain", ctx), sig=f"names:{v}", what=f"marks named {nm!r} {G.NASTY[i]!r} V{v} {e}")
    else:
        _, cells, x = SPACE[i]
        mixed(cells, S.fake_coords(nn(cells)) if x is None else x, ctx, i)


def one(cells, xyz, spec, v, e, order, ctx):
    m, cm = build(cells, xyz, order)
    m.make_face_connectivity()
    facemarks(m, spec)
    judge(m, cm, xyz, spec, v, e, ctx)


def node_marks(cells, xyz, ctx):
    bd = sorted(R.extract(dict(enumerate(cells)))[1], key=sorted)
    for cut in sorted({1, len(bd) // 2, len(bd)}):
        nodes = sorted(set().union(*bd[:cut]), reverse=True)
        keys = [f for f in bd if f <= set(nodes)]
        for faces in (False, True):
            for v, e in VE[:2] + VE[4:]:
                ctx.state("node", cells, cut, faces, v, e)

                def go():
                    m, cm = build(cells, xyz, "plain")
                    m.add_boco(A.make_mark("nm", "bdnode", "boundary", nodes + nodes[:2]))
                    if faces:
                        m.make_face_connectivity()
                    judge(m, cm, xyz, [("nm", "boundary", keys, None)], v, e, ctx)
                ctx.attempt(go, sig=f"node:{v}", what=f"{cells} node mark {nodes} V{v} {e}")


def mixed(cells, xyz, ctx, i):
    """a mesh that only has mixed faces, marks being ranges"""
    cm = dict(enumerate(cells))
    ri, rb = R.extract(cm)
    bk = sorted(rb, key=sorted)
    for rot in range(3):
        bk = bk[rot:] + bk[:rot]
        cut = len(bk) // 2
        rows = []
        for k in bk:
            f, c = rb[k]
            rows.append((f[rot % len(f):] + f[:rot % len(f)], (c, -1)))
        for k in sorted(ri, key=sorted, reverse=bool(rot)):
            f, c = ri[k][rot % 2]
            rows.append((f[rot % len(f):] + f[:rot % len(f)], (c, ri[k][1 - rot % 2][1])))
        for v, e, listing in ((v, e, b) for v, e in VE for b in (False, True)):
            ctx.state("mixed", i, rot, v, e, listing)

            def go():
                m = A.Mesh(ncell=len(cells), nnode=len(xyz))
                m.set_nodescoord_nd(np.array(xyz, dtype=float))
                blocks = {}
                for j, (f, c) in enumerate(rows):
                    blocks.setdefault(R.FACETYPE[len(f)], ([], []))
                    blocks[R.FACETYPE[len(f)]][0].append(f)
                    blocks[R.FACETYPE[len(f)]][1].append(j)
                m.add_faces("mixed", A.make_conn([(t, a, b) for t, (a, b) in blocks.items()]), A.conn.indexindirection(np.array([c for _, c in rows])))
                spec = []
                for name, lo, hi in (("p", 0, cut), ("q", cut, len(bk))):
                    if hi > lo:
                        mk = A.make_mark(name, "bdface", "boundary", [])
                        mk.index = A.indexlist(irange=[lo, hi - 1])
                        m.add_boco(mk)
                        spec.append((name, "boundary", bk[lo:hi], None))
                if listing:  # the marks may be listed in another order than their faces
                    m._bocos = dict(reversed(list(m._bocos.items())))
                p = judge(m, cm, xyz, spec, v, e, ctx)
                require([tuple(f) for f in p["faces"]] == [tuple(f) for f, _ in rows] and [tuple(c) for c in p["cvofa"]] == [c for _, c in rows],
                        "numbered faces changed")
            ctx.attempt(go, sig=f"mixed:{v}", what=f"mixed {cells} V{v} {e}")
