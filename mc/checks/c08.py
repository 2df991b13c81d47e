"""C08 generated boxes: regular grid of the unit cube, tiled by hexahedra, six named sides."""
import itertools

import numpy as np

from .. import adapter as A
from .. import ic3ref as I
from .. import ic3util as U
from .. import refmesh as R
from ..core import require

PROP, LEVEL = "C08", "exploration"
ASSUMPTIONS = ["node and cell numbering inside the box is free; coordinates are compared to the nearest grid point within 1e-12"]
RULE = "distinct = distinct (nx, ny, nz); every size of the box enumerated, none sampled"


def sizes(tier):
    n = 4 if tier == "quick" else 6
    s = set(itertools.product(range(1, n + 1), repeat=3))
    for k in (7, 10, 11, 13, 17, 29, 40) + (() if tier == "quick" else (49, 64, 93, 100, 128)):
        for p in ((k, 1, 1), (1, k, 1), (1, 1, k), (k, 2, 1), (1, k, 3), (2, 1, k)):
            s.add(p)
    return sorted(s, key=lambda t: (t[0] * t[1] * t[2], t))


def bounds(tier):
    return RULE + f"; {len(sizes(tier))} boxes; nx,ny,nz <= {4 if tier == 'quick' else 6} all, and elongated ones up to {40 if tier == 'quick' else 128} cells long; " \
                  "mesh object, and the IC3 V2/V3 files written from it by the writers and (size <= 3) by the command cfdwritecube"


def cases(tier, seed):
    return sizes(tier)


SIDES = {"imin": (0, 0), "imax": (0, 1), "jmin": (1, 0), "jmax": (1, 1), "kmin": (2, 0), "kmax": (2, 1)}


def run(case, ctx):
    ctx.state(case)
    ctx.sample({"nx,ny,nz": case})
    n = case
    cube = A.simple.Cube(*n)
    m = cube.export_mesh()
    nn, nc = (n[0] + 1) * (n[1] + 1) * (n[2] + 1), n[0] * n[1] * n[2]
    require(m.nnode == nn and m.ncell == nc, f"{m.nnode} nodes {m.ncell} cells")
    x = A.coords(m)
    require(x.shape == (nn, 3), "coordinates")
    g = np.rint(x * np.array(n)).astype(int)
    require(np.abs(x - g / np.array(n)).max() < 1e-12, "nodes are not on the regular grid")
    require(g.min() >= 0 and (g <= np.array(n)).all() and len({tuple(t) for t in g.tolist()}) == nn, "nodes are not distinct grid points")
    cells = A.cells(m)
    require(sorted(cells) == list(range(nc)), "cell numbering")
    low = set()
    for t, nodes in cells.values():
        require(t == "hexa8" and len(set(nodes)) == 8, f"cell {t} {nodes}")
        p = g[list(nodes)]
        o = p.min(axis=0)
        require({tuple(q) for q in (p - o).tolist()} == set(itertools.product((0, 1), repeat=3)), f"cell {nodes} is not one grid box")
        v = R.volume(t, [tuple(q) for q in p.astype(float)])
        require(abs(v - 1) < 1e-9, f"cell volume {v} (in grid units): not a positively oriented hexahedron")
        low.add(tuple(o.tolist()))
    require(len(low) == nc, "two cells at the same place")
    mk = A.mark_items(m)
    require(sorted(mk) == sorted(SIDES), f"marks {sorted(mk)}")
    for name, (ax, s) in SIDES.items():
        want = sorted(i for i in range(nn) if g[i][ax] == s * n[ax])
        require(mk[name][2] == want and mk[name][1] == "boundary" and m._bocos[name].nodebased(), f"mark {name}: {mk[name]}")
    files = [(v, e, lambda v=v, e=e: U.write(A.simple.Cube(*n).export_mesh(), v, e)) for v, e in ((2, "little"), (3, "big"))]
    if max(n) <= 3:
        files.append((3, "native", lambda: cli(n)))
    for v, e, get in files:
        p = I.parse(get())
        gp = np.rint(p["xyz"] * np.array(n)).astype(int)
        side = lambda ax, s: {frozenset(f) for f in p["faces"] if all(gp[i][ax] == s * n[ax] for i in f)}
        U.check_written(p, cells, x, {k: ("boundary", side(*SIDES[k]), None) for k in mk}, v, e)
        require(len(p["zones"]) == 7, f"zones {[z[0] for z in p['zones']]}")
        ctx.count("files")
    # the generator can be asked again
    m2 = cube.export_mesh()
    require(np.array_equal(A.coords(m2), x) and A.cells(m2) == cells and A.mark_items(m2) == mk, "second export differs")
    ctx.outcome(nn, nc)


def cli(n):
    import os
    import cfdtools._cli as cli
    p = U.tmp()
    try:
        cli.cfdwritecube([p, "--fmt", "IC3", "--nx", str(n[0]), "--ny", str(n[1]), "--nz", str(n[2])])
        with open(p, "rb") as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)
