"""C10 reading IC3 V2/V3 files written by an independent writer."""
import numpy as np

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from .c02 import nn

PROP, LEVEL = "C10", "model_checking"
ASSUMPTIONS = ["zone names are distinct; parameter names are compared in lower case, as documented by the mesh object",
               "the periodic data of the internal zone are not compared"]
SPACE = []
SPECIAL = [0.0, -0.0, 1e-310, 1.7e308, float("inf"), float("nan")]


def bounds(tier):
    k = 8 if tier == "quick" else 1
    return ("every mesh of 1 cell, 2-cell 3-D gluings" + (f" (residue class seed mod {k})" if k > 1 else "") + ", 1..3-cell 2-D gluings (3: residue class), grids and templates x "
            f"5 zone layouts x 3 face listings x periodic pairs x 2 versions x 2 byte orders x integrity check on/off x EOF spelling; all ordered pairs of {len(G.NASTY)} zone names (names of sections, numbers, other spellings, patterns, full length)")


def cases(tier, seed):
    SPACE.clear()
    k = 8 if tier == "quick" else 1
    ms = S.grow(1, S.T3)[0] + S.grow(1, S.T2)[0] + S.grow(2, S.T2)[0] + S.grow(3, S.T2)[0][seed % (4 * k)::4 * k] + S.grow(2, S.T3)[0][seed % k::k]
    SPACE.extend((c, S.fake_coords(nn(c))) for c in ms)
    SPACE.extend((c, x) for _, c, x in S.templates())
    SPACE.append(S.grid2d(3, 2, ("quad4", "tri3")))
    return [(i, min(i + 4, len(SPACE))) for i in range(0, len(SPACE), 4)] + [("names", i) for i in range(len(G.NASTY))]


def names(case, ctx):
    a = G.NASTY[case[1]]
    for layout in (2, 4):
        for b in G.NASTY:
            if a != b:
                for v in (2, 3):
                    for e in "<>":
                        m = G.base(*S.hexgrid(2, 1, 1), v, e, 1, layout)
                        for i, nm in enumerate((a, b, "third") if layout == 4 else (a, b)):
                            m["zones"][i] = (nm,) + m["zones"][i][1:]
                        ctx.state("names", a, b, layout, v, e)
                        ctx.attempt(one, m, 0, ctx, sig=f"names:{v}", what=f"V{v}{e} zones named {a!r} {b!r}")
    ctx.sample({"zone names": [a, "any other"]})


def run(case, ctx):
    if case[0] == "names":
        return names(case, ctx)
    lo, hi = case
    for i in range(lo, hi):
        cells, xyz = SPACE[i]
        for layout in range(5):
            for rot in range(3):
                for per in (False, True):
                    for v in (2, 3):
                        for e in "<>":
                            m = G.base(cells, xyz, v, e, rot, layout, per)
                            m["xyz"][rot % len(xyz), rot] = SPECIAL[(i + layout) % len(SPECIAL)]
                            ctx.state(i, layout, rot, per, v, e)
                            ctx.attempt(one, m, rot, ctx, sig=f"read:{v}{'p' if per else ''}", what=f"V{v}{e} layout {layout} rot {rot} periodic {per} {cells}")
    ctx.sample({"cells": SPACE[lo][0][:2], "zones": [z[:4] for z in G.base(*SPACE[lo], 3, "<", 1, 2)["zones"]]})


def one(m, rot, ctx):
    secs = I.secs_of(m)
    if rot == 1 and m["version"] == 3:
        secs[-1] = ("DEOF",) + secs[-1][1:]
    if rot == 2:
        m["params"]["RHO_AVG_WGT"] = 0.25
        m["params"]["NIT"] = 12
        secs = I.secs_of(m)
    data = I.emit(m, secs)
    for chk in (False, True):
        mesh = U.read(data, cIntegrity=chk)
        G.check_read(mesh, m)
        ctx.count("traces_validated_against_impl")
        ctx.count("transitions")
    ctx.outcome([z[:4] for z in m["zones"]], m["cvofa"])
