"""C39 chains of the converting commands: every file written holds the mesh, named boundaries and fields of its input, transformed as asked.

Transition system: a state is a file with the model of its content (cells, boundaries and fields keyed by coordinates, no numbering);
a transition runs one command with one set of options on the file; every file written is parsed independently and compared."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np
import pyvista as pv

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from .. import refmesh as R
from ..core import require
from . import c11, c16, c18

import cfdtools._cli as cli  # noqa: E402

PROP, LEVEL = "C39", "model_checking"
ASSUMPTIONS = ["a named boundary of a GMSH or CGNS file is the faces its nodes span: meshes where that is another set of faces, or where two names span one face (one-cell-thick "
               "layers), are left out", "extrusion is over the unit height in as many layers as asked, and comes before scaling", "IC3 to VTK is documented as not available",
               "coordinates are compared to 9 significant digits (other properties compare every bit)"]
SPACE = []
CMDS = {"2": "cfdwrite_ic3v2", "3": "cfdwrite_ic3v3", "vtu": "cfdwrite_vtk"}
VT = {5: "tri3", 9: "quad4", 10: "tetra4", 14: "pyra5", 13: "prism6", 12: "hexa8"}
SCALES = [(2.0, 0.5, 3.0), (1.0, 1.0, -0.25), (1e-3, 1e3, 7.0)]


def bounds(tier):
    return (f"{len(SPACE)} source files (GMSH 2.2 and 4.1, CGNS, IC3 V2/V3, generated boxes) x commands cfdwrite_ic3v2, _ic3v3, _vtk x transformations (none, 3 scalings, extrusions of 2-D meshes in "
            f"1..3 layers, both, the options in either order) x neutral options (--check, --info, --log, --outpath, --fmt, names to remove that are absent); then chains of up to "
            f"{2 if tier == 'quick' else 3} further commands x 2 transformations on every IC3 file obtained")


def key(p):
    return tuple(float(x) + 0.0 for x in p)


def near(p):
    return tuple(float(f"{x:.9g}") + 0.0 for x in p)


def content(cells, xyz, zones, data=(), params=None):
    """numbering-free content; zones: {name: (kind, [faces as node tuples])}; data: {(loc, name): [value per cell or node]}"""
    X = [key(p) for p in xyz]
    cc = [frozenset(R.norm_rot(tuple(X[i] for i in f)) for f in R.cell_faces(t, n)) for t, n in cells]
    out = dict(points=sorted(X), cells=sorted(map(sorted, cc)), typed=sorted((t, tuple(X[i] for i in n)) for t, n in cells),
               zones={n: (k, frozenset(frozenset(X[i] for i in f) for f in fs)) for n, (k, fs) in zones.items()})
    out["data"] = {(loc, n): sorted((sorted(cc[i]) if loc == "cell" else X[i], np.asarray(v).tolist()) for i, v in enumerate(vals)) for (loc, n), vals in dict(data).items()}
    out["params"] = params or {}
    return out


def of_ic3(p):
    """content of a parsed IC3 file (element types are implied by the faces)"""
    X = [key(x) for x in p["xyz"]]
    cells = [[] for _ in range(p["ncv"])]
    for f, (a, b) in zip(p["faces"], p["cvofa"]):
        t = tuple(X[i] for i in f)
        cells[a].append(R.norm_rot(t))
        if b >= 0:
            cells[b].append(R.norm_rot(t[::-1]))
    cc = [sorted(c) for c in cells]
    I.check_zones(p)
    zones = {z[0]: (z[1], frozenset(frozenset(X[i] for i in f) for f in p["faces"][z[2]:z[3] + 1])) for z in p["zones"] if z[1] != 6}
    require(len(zones) == len(p["zones"]) - 1, f"zones {[z[0] for z in p['zones']]}")
    data = {}
    for loc, n, nd, a in p["data"]:
        require(nd == 1 and (loc, n) not in data, f"field {n} at {loc}s: {nd} values per cell, or twice")
        data[loc, n] = sorted((cc[i] if loc == "cell" else X[i], np.asarray(v).tolist()) for i, v in enumerate(a))
    return dict(points=sorted(X), cells=sorted(cc), zones=zones, data=data, params=p["params"])


def spanned(cells, marks):
    """zones spanned by node marks, None if two of them overlap"""
    _, b = R.extract(dict(enumerate(cells)))
    out, seen = {}, set()
    for n, nodes in marks.items():
        fs = {k for k in b if k <= nodes}
        if fs & seen:
            return None
        seen |= fs
        out[n] = (1, [b[k][0] for k in fs])
    return out


def extrude(cells, xyz, marks, nz):
    n = len(xyz)
    out = [("prism6" if t == "tri3" else "hexa8", tuple(x + k * n for x in c) + tuple(x + (k + 1) * n for x in c)) for t, c in cells for k in range(nz)]
    pts = [(p[0], p[1], p[2] + z) for z in np.linspace(0.0, 1.0, nz + 1) for p in xyz]
    mk = {m: {x + k * n for x in s for k in range(nz + 1)} for m, s in marks.items()}
    used = {x for _, c in cells for x in c}
    mk.update(fluid0=used, fluid1={x + nz * n for x in used})
    return out, pts, mk


def scaled(xyz, s):
    return [tuple(a * b for a, b in zip(p, s)) for p in xyz]


def meshes(tier):
    d = dict(c16.small())
    d["hex211"] = S.hexgrid(2, 1, 1)
    d["g32"] = S.grid2d(3, 2, ("tri3", "quad4", "quad4"))
    if tier != "quick":
        d.update(hex222=S.hexgrid(2, 2, 2), pri=S.hexgrid(2, 1, 1, "prism6"), pyr6=S.hexgrid(1, 1, 1, "pyra5"), hph=S.mixedgrid(("hexa8", "pyra5", "prism6")),
                 g23=S.grid2d(2, 3, ("tri3",)), g41=S.grid2d(4, 1, ("quad4", "tri3")))
    return d


def assigns(nb):
    yield "own", list(range(nb))
    yield "half", [0 if i < nb // 2 else None for i in range(nb)]
    yield "pairs", [i // 2 for i in range(nb)]
    yield "one", [0] * nb
    yield "alternate", [i % 3 if i % 3 < 2 else None for i in range(nb)]


def cases(tier, seed):
    SPACE.clear()
    for name, (cells, xyz) in meshes(tier).items():
        bf = c16.bfaces(cells)
        for an, a in assigns(len(bf)):
            n = 1 + max(x for x in a if x is not None)
            nodes = {k: {x for f, b in zip(bf, a) if b == k for x in f} for k in range(n)}
            z = spanned(cells, nodes)
            if z is None or any({frozenset(f) for f in z[k][1]} != {frozenset(f) for f, b in zip(bf, a) if b == k} for k in z):
                continue
            for fmt in ("gmsh2", "gmsh4", "cgns"):
                SPACE.append((fmt, name, an, a, cells, xyz))
    ic = [S.hexgrid(2, 1, 1), S.mixedgrid(("hexa8", "pyra5")), S.grid2d(2, 2, ("quad4", "tri3")), S.hexgrid(1, 1, 1, "tetra4")]
    for i, (cells, xyz) in enumerate(ic):
        for v, e in itertools.product((2, 3), "<>"):
            for layout in range(5) if tier != "quick" else ((i + v) % 5,):
                SPACE.append((f"ic3v{v}{e}", f"model {i}", f"layout {layout}", layout, cells, xyz))
    SPACE.extend((f"cube{n}", "box", "", n, None, None) for n in ((1, 1, 1), (2, 1, 3), (3, 2, 2)))
    return [(i,) for i in range(len(SPACE))]


def source(src):
    """writes the file; (name, format, (cells, xyz, marks) or None, content)"""
    fmt, name, an, a, cells, xyz = src
    if fmt[:4] == "gmsh":
        n = 1 + max(x for x in a if x is not None)
        dim = R.DIM[cells[0][0]]
        names = [(dim - 1, 10 + k, f"mark {k}" if k % 2 else f"M-{k}") for k in range(n)]
        m = c16.model(cells, xyz, a, [[10 + k] for k in range(n)], names, place=("after", "before", "ent")[len(cells) % 3])
        with open("m.msh", "w") as f:
            f.write(GM.v2(m) if fmt == "gmsh2" else GM.v4(m))
        _, ecells, marks = GM.expected(m)
        tags = [t for t, _ in m["nodes"]]
        pos = {t: i for i, t in enumerate(tags)}
        mm = ([(t, tuple(pos[x] for x in c)) for t, c in ecells], [p for _, p in m["nodes"]], {k: {pos[x] for x in s} for k, s in marks.items()})
        return "m.msh", "GMSH", mm
    if fmt == "cgns":
        m = c18.model(cells, xyz, a, ("vertex", "face", "elem")[len(xyz) % 3], 0, ("type", "cell")[len(cells) % 2])
        CG.write("m.cgns", m)
        x, c, marks = CG.expected(m, m["zones"][0])
        return "m.cgns", "CGNS", (c, [tuple(p) for p in x.tolist()], {k: v[0] for k, v in marks.items()})
    if fmt[:3] == "ic3":
        m = G.base(cells, xyz, int(fmt[4]), fmt[5], rot=a, layout=a)
        n, k = len(m["xyz"]), m["ncv"]
        v = c11.values
        m["data"] = [("cell", "P", 1, v(k, "d", (), 0, 1)), ("node", "P", 1, v(n, "d", (), 0, 2)), ("cell", "U 1", 1, v(k, "d", (3,), 0, 3)), ("cell", "R", 1, v(k, "d", (3, 3), 0, 4)),
                     ("node", "X", 1, v(n, "d", (3,), 0, 5))][: 5 if a % 2 == 0 else 2]
        with open("m.ic3", "wb") as f:
            f.write(I.emit(m))
        return "m.ic3", "IC3", None
    quiet(cli.cfdwritecube, ["m.ic3"] + [x for k, n in zip(("--nx", "--ny", "--nz"), a) for x in (k, str(n))])
    return "m.ic3", "IC3", None


def quiet(fn, argv):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(argv)


def transforms(mm):
    out = [(None, None, 0)] + [(None, s, 0) for s in SCALES]
    if mm is not None and R.DIM[mm[0][0][0]] == 2:
        out += [(1, None, 0), (2, None, 0), (3, None, 0), (2, SCALES[0], 0), (1, SCALES[1], 1), (3, SCALES[2], 1)]
    return out


def neutral(fmt, i, full):
    opts = [[], ["--check"], ["--info"], ["--outpath", "sub"], ["--fmt", fmt], ["--log", "debug", "--info"], ["--remove-cell-data", "none of them", "--remove-node-data", "nor", "this"],
            ["--info", "--check", "--outpath", "sub", "--fmt", fmt]]
    return opts if full else [opts[i % len(opts)]]


def arguments(file, tr, opts, front):
    ex, sc, swap = tr
    a = ["--extrude", str(ex)] if ex else []
    b = ["--scale"] + [repr(x) for x in sc] if sc else []
    args = b + a if swap else a + b
    # lists of names swallow what follows: the file name comes first
    return [file] + args + opts if front or "--remove-cell-data" in opts else args + opts + [file]


def want_of(mm, cont, tr):
    """content expected after a transformation: None when the marks of the result overlap"""
    ex, sc, _ = tr
    if mm is not None:
        cells, xyz, marks = mm
        if ex:
            cells, xyz, marks = extrude(cells, xyz, marks, ex)
        z = spanned(cells, marks)
        return None if z is None else content(cells, scaled(xyz, sc) if sc else xyz, z)
    return remap(cont, lambda p: key(a * b for a, b in zip(p, sc))) if sc else cont


def remap(cont, mv):
    """content with every point moved"""
    face = lambda f: R.norm_rot(tuple(mv(p) for p in f))
    cell = lambda c: sorted(face(f) for f in c)
    typed = {"typed": sorted((t, tuple(map(mv, n))) for t, n in cont["typed"])} if "typed" in cont else {}
    return {**cont, **typed, "points": sorted(map(mv, cont["points"])), "cells": sorted(map(cell, cont["cells"])),
            "zones": {n: (k, frozenset(frozenset(map(mv, f)) for f in fs)) for n, (k, fs) in cont["zones"].items()},
            "data": {k: sorted((cell(c) if k[0] == "cell" else mv(c), v) for c, v in d) for k, d in cont["data"].items()}}


def judge_ic3(data, want, version):
    p = I.parse(data)
    require(p["version"] == version, f"version {p['version']}")
    exact = of_ic3(p)
    got, want = remap(exact, near), remap(want, near)
    for k in ("points", "cells", "data"):
        require(got[k] == want[k], f"{k} differ: {str(got[k])[:150]} instead of {str(want[k])[:150]}")
    allb = frozenset(frozenset(X) for X in boundary(got["cells"]))
    wz = {n: z for n, z in want["zones"].items() if z[1]}
    left = allb - frozenset().union(*[z[1] for z in wz.values()])
    extra = [n for n in got["zones"] if n not in wz]
    require(all(got["zones"].get(n) == z for n, z in wz.items()), f"zones {[(n, k, len(f)) for n, (k, f) in got['zones'].items()]} instead of {[(n, k, len(f)) for n, (k, f) in wz.items()]}")
    require(len(extra) == bool(left) and all(got["zones"][n] == (1, left) for n in extra), f"{len(left)} faces without mark, additional zones {extra}")
    for k, x in want["params"].items():
        require(p["params"].get(k) == x, f"{k} is {p['params'].get(k)} instead of {x}")
    return exact


def boundary(cells):
    n = {}
    for c in cells:
        for f in c:
            n[frozenset(f)] = n.get(frozenset(f), 0) + 1
    return [f for f, k in n.items() if k == 1]


def judge_vtu(path, want):
    g = pv.read(path)
    want = remap(want, near)
    X = [near(p) for p in g.points.tolist()]
    require(sorted(X) == want["points"], "points of the VTK file")
    got, c = [], g.cells.tolist()
    i = 0
    for t in g.celltypes.tolist():
        got.append((VT[t], tuple(X[x] for x in c[i + 1:i + 1 + c[i]])))
        i += 1 + c[i]
    require(sorted(got) == want["typed"], f"cells of the VTK file {str(sorted(got))[:200]} instead of {str(want['typed'])[:200]}")


def step(cmd, file, fmt, mm, cont, tr, opts, front, ctx, hist):
    """runs a command, judges what it wrote; (name, content) of the IC3 file, if any"""
    want = want_of(mm, cont, tr)
    argv = arguments(file, tr, opts, front)
    before = {f: open(f, "rb").read() for f in os.listdir(".") if os.path.isfile(f)}
    if want is None:
        ctx.count("left_out")
        return None
    out = quiet(getattr(cli, CMDS[cmd]), argv)
    require(isinstance(out, str) and os.path.isfile(out), f"no file {out}")
    require(all(open(f, "rb").read() == b for f, b in before.items()), "a file that was there changed")
    now = {f for f in os.listdir(".") if os.path.isfile(f)} | {"sub/" + f for f in os.listdir("sub")}
    require(now - set(before) == {os.path.normpath(out)}, f"files {sorted(now - set(before))} written")
    try:
        require((os.path.dirname(out) or ".") == ("sub" if "sub" in opts else "."), f"written to {out}")
        require(out.endswith({"vtu": ".vtu"}.get(cmd, ".ic3")), f"written to {out}")
        if cmd == "vtu":
            judge_vtu(out, want)
            return None
        with open(out, "rb") as f:
            data = f.read()
        return data, judge_ic3(data, want, int(cmd))
    finally:
        os.unlink(out)
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")


def chain(ctx, data, cont, depth, hist, n):
    """further commands on an IC3 file"""
    for cmd in "23":
        for tr in ((None, None, 0), (None, SCALES[(n + len(hist)) % 3], 0)):
            n += 1
            with open("c.ic3", "wb") as f:
                f.write(data)
            opts = neutral("IC3", n, False)[0]
            h = hist + (cmd, tr[1], tuple(opts))
            if not ctx.state(h):
                continue
            r = ctx.attempt(step, cmd, "c.ic3", "IC3", None, cont, tr, opts, n % 2, ctx, h, sig=f"chain:{cmd}", what=f"chain {h}")
            os.unlink("c.ic3")
            if r and depth > 1:
                chain(ctx, r[0], r[1], depth - 1, h, n)


def run(case, ctx):
    src = SPACE[case[0]]
    d = os.path.join(A.scratch(), f"chain{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/sub")
    here = os.getcwd()
    os.chdir(d)
    try:
        file, fmt, mm = source(src)
        cont = None
        if mm is None:
            with open(file, "rb") as f:
                p = I.parse(f.read())
            cont = of_ic3(p)
        full = ctx.tier != "quick" or case[0] % 2 == 0
        n = case[0]
        for cmd in CMDS:
            if cmd == "vtu" and mm is None:
                continue
            for tr in transforms(mm):
                n += 1
                for opts in neutral(fmt, n, full):
                    h = (src[:3], cmd, tr, tuple(opts))
                    ctx.state(h)
                    r = ctx.attempt(step, cmd, file, fmt, mm, cont, tr, opts, n % 2, ctx, h, sig=f"{src[0][:5]}:{cmd}", what=f"{src[:3]} {CMDS[cmd]} {tr} {opts}")
                    ctx.outcome(src[:3], cmd, tr, r is None)
                    if r and opts == neutral(fmt, n, True)[n % 2]:
                        chain(ctx, r[0], r[1], 2 if ctx.tier == "quick" else 3, h, n)
        ctx.sample({"source": src[:3], "commands": list(CMDS)})
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
