"""C12 reading an IC3 V2/V3 file does not depend on the order of its sections."""
import itertools
import math

from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import require
from .c11 import EDGE, values

PROP, LEVEL = "C12", "model_checking"
ASSUMPTIONS = ["the end-of-file section stays last; the documentation states that the order of all others is arbitrary"]
MESHES = [S.hexgrid(2, 1, 1), S.grid2d(2, 3, ("tri3",)), S.mixedgrid(("prism6", "pyra5")), (((("tetra4", (0, 1, 2, 3)),)), [(0.0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)])]


def bounds(tier):
    g = 7 if tier == "quick" else 8
    return (f"4 meshes x 2 versions x 2 byte orders: all {g}! permutations of {g} groups of sections, all moves of one section to any place, all swaps of two "
            "sections, all permutations of the zone and field sections (<=720), reversal and rotations; reading with integrity checks and listing of the sections for the moves")


def model(i, v, e):
    m = G.base(*MESHES[i], v, e, rot=i, layout=4)
    m["params"]["RHO_AVG_WGT"] = 0.5
    n, f, c = len(m["xyz"]), len(m["faces"]), m["ncv"]
    d = [("node", "P", 1, values(n, "d", (), 0, 1)), ("cell", "P", 1, values(c, "d", (), 1, 2)), ("face", "F", 1, values(f, "d", (), 0, 3)),
         ("node", "V", 1, values(n, "d", (3,), 0, 4)), ("cell", "V", 1, values(c, "d", (3,), 0, 5)), ("cell", "T", 1, values(c, "d", (3, 3), 0, 6))]
    m["data"] = d
    return m


def groups(secs, k):
    """k ordered groups of sections (EOF excluded)"""
    C = I.C
    key = {C["COUNTS"]: 0, C["NO_CHECK"]: 0, C["FA_CHECK"]: 7, C["CV_CHECK"]: 7, C["NOOFA"]: 1, C["CVOFA"]: 2, C["FA_ZONE"]: 3, C["CV_PART"]: 4, C["X_NO"]: 5,
           C["DATA"]: 6, C["I0"]: 6, C["D0"]: 6}
    out = [[] for _ in range(8)]
    for s in secs[:-1]:
        out[key.get(s[1], 7)].append(s)
    if k == 7:
        out[6] += out.pop(7)
    return out


def orders(secs, what, arg, tier):
    body, eof = secs[:-1], secs[-1:]
    n = len(body)
    if what == "groups":
        g = groups(secs, 7 if tier == "quick" else 8)
        first = arg
        rest = [i for i in range(len(g)) if i != first]
        for p in itertools.permutations(rest):
            yield [s for i in (first,) + p for s in g[i]] + eof
    elif what == "moves":
        for a in range(n):
            for b in range(n):
                if b != a:
                    o = list(body)
                    s = o.pop(a)
                    o.insert(b, s)
                    yield o + eof
        for a in range(n):
            for b in range(a + 1, n):
                o = list(body)
                o[a], o[b] = o[b], o[a]
                yield o + eof
        for a in range(n):
            yield body[a:] + body[:a] + eof
            yield (body[a:] + body[:a])[::-1] + eof
    else:
        code = {"zones": (I.C["FA_ZONE"],), "fields": tuple(I.DATA_IDS)}[what]
        pos = [i for i, s in enumerate(body) if s[1] in code]
        for p in itertools.permutations(pos):
            o = list(body)
            for i, j in zip(pos, p):
                o[i] = body[j]
            yield o + eof


def cases(tier, seed):
    out = []
    for i in range(len(MESHES)):
        for v in (2, 3):
            for e in "<>":
                out += [("moves", None, i, v, e), ("zones", None, i, v, e), ("fields", None, i, v, e)]
                out += [("groups", a, i, v, e) for a in range(7 if tier == "quick" else 8)]
    return out


def run(case, ctx):
    what, arg, i, v, e = case
    m = model(i, v, e)
    secs = I.secs_of(m)
    for o in orders(secs, what, arg, ctx.tier):
        key = [(s[0], s[1]) for s in o]
        if ctx.state(i, v, e, key):
            ctx.attempt(one, m, o, what, ctx, sig=f"{what}:{v}", what=f"V{v}{e} sections in the order {[s[0] for s in o]}")
    ctx.sample({"order": [s[0] for s in secs], "what": what, "group first": arg})


def one(m, o, what, ctx):
    data = I.emit(m, o)
    mesh = U.read(data)
    G.check_read(mesh, m)
    ctx.count("traces_validated_against_impl")
    ctx.count("transitions")
    if what == "moves":
        G.check_read(U.read(data, cIntegrity=True), m, where="with integrity checks: ")
        names = U.list_sections(data)
        require(names == [s[0] for s in o], f"sections listed: {names}")
        ctx.count("transitions", 2)
    ctx.outcome([s[0] for s in o][:3])
