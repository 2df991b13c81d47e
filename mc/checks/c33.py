"""C33 information commands: every format x mesh x option; what is reported is compared with the model, the files are not touched."""
import contextlib
import hashlib
import io
import itertools
import logging
import os
import re
import shutil
import subprocess
import sys

import numpy as np
import pyvista as pv

import cfdtools._cli as cli

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from .. import vtkgen as V
from ..core import require
from . import c16, c18
from .c11 import values

PROP, LEVEL = "C33", "exploration"
RULE = ("one evaluation per (file, command, options): IC3 V2/V3 in both byte orders x meshes x zone layouts x sets of fields, GMSH 2/4 and CGNS x meshes x markings x descriptions, and the VTK formats x grids x "
        "sets of fields, each with every option combination; counted distinct by file content and arguments")
ASSUMPTIONS = ["face counts are reported for the formats which list faces; field names by cfdinfo and ic3brief on IC3 files and by vtkbrief", "default (info) log level", "sections and meshes of the file: V2/V3 for ic3brief"]
MESHES = [("hex1", S.hexgrid(1, 1, 1)), ("hex321", S.hexgrid(3, 2, 1)), ("prism", S.hexgrid(2, 1, 1, "prism6")), ("pyr", S.hexgrid(1, 1, 1, "pyra5")), ("tet", S.hexgrid(1, 1, 2, "tetra4")),
          ("mix", S.mixedgrid(("hexa8", "pyra5", "prism6")))]
OPTS = [[], ["--check"], ["--info"], ["--check", "--info", "--outpath", "nowhere"], ["--fmt", None, "--outpath", "nowhere"]]
FIELDS = [[], [("cell", "P", "d", ()), ("node", "P", "d", ())], [("cell", "rho u", "d", (3,)), ("node", "id", "q", ()), ("cell", "TAU", "d", (3, 3))], [("node", "X", "d", (3,)), ("cell", "n", "q", ())]]
VEXT = {"UnstructuredGrid": [".vtu", ".vtk"], "PolyData": [".vtp", ".vtk", ".ply", ".stl"], "StructuredGrid": [".vts", ".vtk"], "RectilinearGrid": [".vtr", ".vtk"], "ImageData": [".vti", ".vtk"]}


def bounds(tier):
    return RULE


class Capture(logging.Handler):
    """everything printed or logged by the package"""

    def __init__(self):
        super().__init__()
        self.out = io.StringIO()

    def emit(self, record):
        self.out.write(record.getMessage() + "\n")

    def run(self, fn, argv):
        lg = logging.getLogger("cfdtools")
        old = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        lg.addHandler(self)
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(io.StringIO()):
                fn(list(argv))
        except SystemExit as e:
            raise AssertionError(f"{argv}: the command stopped with status {e.code}")
        finally:
            lg.removeHandler(self)
            logging.disable(old)
        return self.out.getvalue()


def tree():
    out = {}
    for r, ds, fs in os.walk("."):
        for f in fs:
            p = os.path.join(r, f)
            out[p] = (hashlib.md5(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns)
        for x in ds:
            out[os.path.join(r, x)] = None
    return out


def number(text, label, n, what, zero=False):
    """n is reported as the number of `label`s and no other number is"""
    own = [int(x) for x in re.findall(rf"^\s*n{label}s?\s*[:=]\s*(\d+)\s*$", text, re.M)]
    require(all(x == n or (zero and x == 0) for x in own), f"{what}: reports {own} {label}s instead of {n}")
    require(own and (zero or n in own) or re.search(rf"\b{n}\s+{label}s?\b", text) or re.search(rf"{label}s?\W+{n}\b", text), f"{what}: the number of {label}s {n} is not reported")


def named(text, name, what):
    require(re.search(r"(?<!\w)" + re.escape(name) + r"(?!\w)", text), f"{what}: {name!r} is not reported")


def marks(text, names, what):
    at = text.rfind("\nnnode")
    rep = text[at:] if at >= 0 else text
    for n in names:
        named(rep, n, what)
    lines = re.findall(r"^\s+BC (.*)$", rep, re.M)
    require(not lines or len(lines) == len(names), f"{what}: {lines} reported for the boundaries {sorted(names)}")


def call(fn, argv, ctx):
    before = tree()
    text = Capture().run(fn, argv)
    require(tree() == before, f"{argv}: files changed: {sorted(set(tree()) ^ set(before))}")
    ctx.count("evaluations")
    return text


def cases(tier, seed):
    out = [("ic3", m, v, e, l) for m in range(len(MESHES)) for v in (2, 3) for e in "<>" for l in range(5)]
    out += [("gmsh", n, p) for n in c16.small() for p in range(len(c16.GROUPS))]
    out += [("cgns", n, mode, fam) for n in c18.small2() for mode in c18.MODES for fam in range(len(c18.FAMS))]
    out += [("vtk", k, e) for k in VEXT for e in range(len(VEXT[k]))] + [("multi",)]
    out += [("shell", k) for k in range(6)]
    return out


def run(case, ctx):
    d = os.path.join(A.scratch(), f"i{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        {"ic3": ic3, "gmsh": gmsh, "cgns": cgns, "vtk": vtk, "multi": multi, "shell": shell}[case[0]](case, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def put(name, data):
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    with open(name, "wb") as f:
        f.write(data)


def options(name, fmt):
    for o in OPTS:
        o = [fmt if x is None else x for x in o]
        yield [name] + o
        yield o + [name]


def ic3(case, ctx):
    _, mi, v, e, layout = case
    name, (cells, xyz) = MESHES[mi]
    for fi, fs in enumerate(FIELDS):
        if v == 2 and any(f[2] == "q" for f in fs):
            fs = [f for f in fs if f[2] != "q"]
        m = G.base(cells, xyz, v, e, rot=layout, layout=layout)
        m["data"] = [(loc, nm, 1, values(m["ncv"] if loc == "cell" else len(m["xyz"]), ch, shp, 1, j + 1)) for j, (loc, nm, ch, shp) in enumerate(fs)]
        put("in/some file.ic3", I.emit(m))
        for argv in options("in/some file.ic3", "IC3"):
            what = f"{case} fields {fi}: cfdinfo {argv}"
            t = call(cli.cfdinfo, argv, ctx)
            for lab, n in (("node", len(m["xyz"])), ("cell", m["ncv"]), ("face", len(m["faces"]))):
                number(t, lab, n, what)
            marks(t, [z[0] for z in m["zones"]], what)
            for _, nm, _, _ in m["data"]:
                named(t, nm, what)
            what = f"{case} fields {fi}: ic3brief {argv}"
            t = call(cli.ic3brief, argv, ctx)
            listed(t, m, what)
            ctx.state(case, fi, argv)
        ctx.outcome(name, v, layout, fi)
    ctx.sample({"format": f"IC3 V{v}", "mesh": name, "layout": layout})


def listed(t, m, what):
    """ic3brief: each section once, in the order of the file, with its name and its integers"""
    want = [(s[0], tuple(s[2])) for s in I.secs_of(m)]
    blocks = re.split(r"^> Header:\s*$", t, flags=re.M)[1:]
    got = []
    for b in blocks:
        nm = re.search(r"^Name\s*:\s(.*)$", b, re.M).group(1).strip()
        idata = tuple(int(x) for x in re.findall(r"-?\d+", re.search(r"^idata\s*:(.*)$", b, re.M).group(1)))
        got.append((nm, idata))
    require([g[0] for g in got] == [w[0] for w in want], f"{what}: sections {[g[0] for g in got]} instead of {[w[0] for w in want]}")
    for g, w in zip(got, want):
        require(g[1][:len(w[1])] == w[1] and not any(g[1][len(w[1]):]), f"{what}: section {w[0]} listed with {g[1]} instead of {w[1]}")


def gmsh(case, ctx):
    _, nm, pi = case
    cells, xyz = c16.small()[nm]
    bf = c16.bfaces(cells)
    pat = c16.GROUPS[pi]
    from ..refmesh import DIM
    dim = DIM[cells[0][0]]
    names = [(dim - 1 + dd, t, n) for dd, t, n in pat[1]]
    for k, (nn, kw) in enumerate(itertools.product((names, []), ({}, {"extra": ("comments", "data")}))):
        m = c16.model(cells, xyz, [(i + k) % 3 for i in range(len(bf))], pat[0], nn)
        _, cc, mk = GM.expected(m)
        for ver, text in ((2, GM.v2(m, **kw)), (4, GM.v4(m, **kw))):
            put("in/some file.msh", text.encode())
            for argv in options("in/some file.msh", "GMSH"):
                what = f"{case} {k} v{ver}: cfdinfo {argv}"
                t = call(cli.cfdinfo, argv, ctx)
                number(t, "node", len(xyz), what)
                number(t, "cell", len(cc), what)
                if nn:
                    marks(t, list(mk), what)
                ctx.state(case, k, ver, argv)
    ctx.outcome(nm, pi)


def cgns(case, ctx):
    _, nm, mode, fam = case
    cells, xyz = c18.small2()[nm]
    nb = len(c18.bfaces(cells))
    for k, extra in enumerate(((), ("cells",), ("low",))):
        m = c18.model(cells, xyz, [(None, 0, 1, 2)[(i + k) % (4 if k else 3)] for i in range(nb)], mode, fam, extra=extra)
        if os.path.exists("a.cgns"):
            os.unlink("a.cgns")
        CG.write("a.cgns", m)
        _, cc, mk = CG.expected(m, m["zones"][0])
        for argv in options("a.cgns", "CGNS"):
            what = f"{case} {k}: cfdinfo {argv}"
            t = call(cli.cfdinfo, argv, ctx)
            number(t, "node", len(xyz), what)
            number(t, "cell", len(cc), what)
            marks(t, list(mk), what)
            ctx.state(case, k, argv)
    ctx.outcome(nm, mode, fam)


def grids(kind):
    if kind == "UnstructuredGrid":
        for _, (cells, xyz) in MESHES:
            yield V.grid(cells, xyz)
        for g in (S.grid2d(2, 1, ("quad4", "tri3")),):
            yield V.grid(*g)
    elif kind == "PolyData":
        yield pv.PolyData(np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]]), np.array([3, 0, 1, 2, 3, 1, 3, 2]))
    elif kind == "StructuredGrid":
        for n in ((2, 3, 2), (2, 2, 1)):
            x, y, z = np.meshgrid(*[np.linspace(0, 1 + i, k) for i, k in enumerate(n)], indexing="ij")
            yield pv.StructuredGrid(x, y, z)
    elif kind == "RectilinearGrid":
        for n in ((3, 2, 2), (4, 1, 2)):
            yield pv.RectilinearGrid(*[np.cumsum(1.0 + np.arange(k)) for k in n])
    else:
        for n in ((2, 3, 4), (3, 3, 1)):
            yield pv.ImageData(dimensions=n, spacing=(0.5, 1, 2))


def vtk(case, ctx):
    _, kind, ei = case
    ext = VEXT[kind][ei]
    bare = ext in (".ply", ".stl")
    for k, g in enumerate(grids(kind)):
        for fs in [()] if bare else [(), ("P",), ("rho n", "U"), ("a", "b", "c")]:
            for locs in [("c",)] if bare else [("c",), ("p",), ("f",), ("c", "p", "f")]:
                h = g.copy()
                for i, f in enumerate(fs):
                    loc = locs[i % len(locs)]
                    n = {"c": h.n_cells, "p": h.n_points, "f": 2}[loc]
                    {"c": h.cell_data, "p": h.point_data, "f": h.field_data}[loc][f] = np.arange(n, dtype=float) + i
                name = f"in/some file{ext}"
                os.makedirs("in", exist_ok=True)
                h.save(name)
                h = pv.read(name)
                for argv in ([name], ["--info", "--check", name], [name, "--outpath", "nowhere"], ["--fmt", "IC3", name]):
                    what = f"{case} grid {k} fields {fs} at {locs}: vtkbrief {argv}"
                    t = call(cli.vtkbrief, argv, ctx)
                    number(t, "cell", h.n_cells, what)
                    number(t, "point", h.n_points, what)
                    for i, f in enumerate(fs):
                        loc = {"c": "cell", "p": "point", "f": "field"}[locs[i % len(locs)]]
                        named(t, f, what)
                        lines = [x for x in t.splitlines() if re.search(rf"\b{loc}\s+data", x)]
                        require(not lines or any(re.search(rf"['\"]{re.escape(f)}['\"]", x) for x in lines), f"{what}: {f!r} is not reported with the {loc} data")
                    ctx.state(case, k, fs, locs, argv)
    ctx.outcome(kind, ext)


def multi(case, ctx):
    """containers of several grids"""
    pv.MultiBlock({"a": V.grid(*MESHES[0][1]), "b": V.grid(*MESHES[1][1])}).save("a.vtm")
    try:
        call(cli.vtkbrief, ["a.vtm"], ctx)
    except Exception as e:
        ctx.fail(f"vtkbrief a.vtm: {type(e).__name__} {e}", "vtkbrief-multiblock")
    ctx.state("multi")


SHELL = [("cfdinfo", "a.ic3"), ("cfdinfo", "a.msh"), ("cfdinfo", "a.cgns"), ("ic3brief", "a.ic3"), ("vtkbrief", "a.vtu"), ("cfdinfo", "missing.ic3")]


def shell(case, ctx):
    """as the installed commands run: exit status, output, files"""
    cmd, name = SHELL[case[1]]
    cells, xyz = S.hexgrid(3, 2, 1)
    put("a.ic3", I.emit(G.base(cells, xyz, 3, "<")))
    put("a.msh", GM.v2(c16.model(cells, xyz, [0] * len(c16.bfaces(cells)), [[1]], [(2, 1, "wall")])).encode())
    CG.write("a.cgns", c18.model(cells, xyz, [0] * len(c16.bfaces(cells)), "face", 0))
    V.grid(cells, xyz).save("a.vtu")
    for opts in ([], ["--log", "debug"], ["--log", "error"], ["--check", "--info"]):
        before = tree()
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        env["PYTHONPATH"] = os.environ.get("MC_REPO", "/repo")
        p = subprocess.run([sys.executable, "-c", f"import sys; sys.argv[0] = {cmd!r}; from cfdtools._cli import {cmd}; sys.exit({cmd}())", *opts, name],
                           capture_output=True, text=True, env=env)
        what = f"{cmd} {opts} {name} in a shell"
        require(tree() == before, f"{what}: files changed")
        if name.startswith("missing"):
            require(p.returncode != 0, f"{what}: ends with status {p.returncode}")
        else:
            require(p.returncode == 0, f"{what}: ends with status {p.returncode}: {p.stderr[-200:]}")
        if opts != ["--log", "error"] and p.returncode == 0:
            t = re.sub(r"^(INFO|DEBUG|WARNING|ERROR) ", "", p.stderr, flags=re.M) + "\n" + p.stdout
            if cmd != "ic3brief":
                number(t, "cell", 6, what)
        ctx.state(case, opts)
        ctx.count("evaluations")
