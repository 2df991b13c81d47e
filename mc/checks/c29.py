"""C29 selection of the format: file content x extension x requested format x command, and histories of the registry."""
import contextlib
import io
import itertools
import os
import shutil

import numpy as np
import pyvista as pv

import cfdtools._cli as cli

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from .. import vtkgen as V
from ..core import bfs, require
from . import c16, c18

PROP, LEVEL = "C29", "exploration"
RULE = ("one evaluation per (file content, file name, requested format, command, options): the full product of 8 contents, every extension and 6 requested formats over the 4 conversion and "
        "information commands, the box generator with every extension and format, additional formats registered by a user, and every registration history; counted distinct by these parameters")
ASSUMPTIONS = ["the generic commands read the formats which have a reader: IC3 V2/V3, GMSH, CGNS (VTK files are only written)", "extensions differing by their case only may be refused or recognised",
               "files of IC3 meshes to VTK: documented as not available, not judged"]
EXT = {"IC3": ".ic3", "GMSH": ".msh", "CGNS": ".cgns", "VTK": ".vtu"}
NAMES = ["a.ic3", "a.msh", "a.cgns", "a.vtu", "a", "a.xyz", "a.hdf", "a.msh.cgns", "a.cgns.ic3", "a.ic3.msh", "a.ic3.bak", ".ic3", "in.put/a", "in.ic3/a", "in.msh/a.cgns", "a.IC3", "a.Msh", "a.",
         "a.ic3 ", "ic3", "a.ic"]
FMTS = [None, "IC3", "GMSH", "CGNS", "VTK", "bogus", "ic3"]
CMDS = {"info": (cli.cfdinfo, None), "v2": (cli.cfdwrite_ic3v2, "IC3"), "v3": (cli.cfdwrite_ic3v3, "IC3"), "vtk": (cli.cfdwrite_vtk, "VTK")}
_made = {}


def contents():
    """{content: (format, bytes, sorted coordinates, number of cells)}"""
    if _made:
        return _made
    p = os.path.join(A.scratch(), f"m{os.getpid()}")
    for v, e in ((2, "<"), (3, ">")):
        cells, xyz = S.hexgrid(1 + v, 1, 1)
        _made[f"ic3v{v}"] = ("IC3", I.emit(G.base(cells, xyz, v, e)), xyz, len(cells))
    cells, xyz = S.mixedgrid(("hexa8", "pyra5"))
    m = c16.model(cells, xyz, [0] * len(c16.bfaces(cells)), [[1]], [(2, 1, "wall"), (3, 1, "vol")])
    _made["msh2"] = ("GMSH", GM.v2(m).encode(), xyz, len(cells))
    cells, xyz = S.grid2d(2, 1, ("quad4", "tri3"))
    m = c16.model(cells, xyz, [0] * len(c16.bfaces(cells)), [[1]], [(1, 1, "wall"), (2, 1, "vol")])
    _made["msh4"] = ("GMSH", GM.v4(m).encode(), xyz, len(cells))
    for nm, (cells, xyz), phys in (("cgns3", S.hexgrid(1, 1, 1, "prism6"), 3), ("cgns2", S.grid2d(1, 1, ("tri3",)), 2)):
        CG.write(p, c18.model(cells, xyz, [0] * len(c16.bfaces(cells)), "face", 0, physdim=phys))
        _made[nm] = ("CGNS", open(p, "rb").read(), xyz, len(cells))
        os.unlink(p)
    cells, xyz = S.hexgrid(1, 1, 1, "tetra4")
    V.grid(cells, xyz).save(p + ".vtu")
    _made["vtu"] = ("VTK", open(p + ".vtu", "rb").read(), xyz, len(cells))
    os.unlink(p + ".vtu")
    _made["empty"] = ("none", b"", [], 0)
    return _made


CONTENT = ["ic3v2", "ic3v3", "msh2", "msh4", "cgns3", "cgns2", "vtu", "empty"]
OPTS = [(), ("--check",), ("--info",)]


def cases(tier, seed):
    return [("run", c, n, cmd) for c in CONTENT for n in range(len(NAMES)) for cmd in CMDS] + [("cube", n) for n in range(len(NAMES))] + \
           [("user", c) for c in CONTENT] + [("registry", k) for k in range(len(EVENTS))]


def by_ext(name):
    """set of acceptable formats (None: refused)"""
    ext = os.path.splitext(name)[1]
    f = [k for k, e in EXT.items() if e == ext]
    if f:
        return {f[0]}
    return {None} | {k for k, e in EXT.items() if e == ext.lower()}


def call(fn, argv):
    """(result, error)"""
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return fn(list(argv)), None
    except SystemExit as e:
        require(e.code not in (0, None), f"{argv}: the command stopped without an error")
        return None, e
    except Exception as e:
        return None, e


def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}


def judge_output(path, kind, xyz, ncell, what):
    want = sorted(tuple(float(x) for x in p) for p in xyz)
    if kind == "IC3":
        m = I.parse(open(path, "rb").read())
        got, n = m["xyz"].tolist(), m["ncv"]
    else:
        g = pv.read(path)
        got, n = g.points.tolist(), g.n_cells
    require(sorted(map(tuple, got)) == want and n == ncell, f"{what}: the output does not hold the mesh of the input ({len(got)} nodes, {n} cells)")


def run(case, ctx):
    d = os.path.join(A.scratch(), f"f{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        {"run": product, "cube": cube, "user": user, "registry": registry}[case[0]](case, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def one(ctx, cname, name, cmd, fmt, opts, order, known=None):
    """known: additional formats {fmt: (extension, xyz, ncell) or None}"""
    kind, data, xyz, ncell = contents()[cname]
    shutil.rmtree("w", ignore_errors=True)
    os.makedirs("w/out")
    src = os.path.join("src", name)
    os.makedirs(os.path.dirname(src), exist_ok=True)
    with open(src, "wb") as f:
        f.write(data)
    fn, okind = CMDS[cmd]
    fa = [] if fmt is None else ["--fmt", fmt]
    out = [] if cmd == "info" else ["--outpath", "w/out"]
    argv = [[src] + fa + list(opts) + out, fa + out + list(opts) + [src]][order]
    before = tree(".")
    res, err = call(fn, argv)
    after = tree(".")
    what = f"{cname} as {name!r}: {cmd} {argv}"
    chosen = by_ext(name) if fmt is None else {fmt if fmt in ("IC3", "GMSH", "CGNS") else None}
    new = sorted(set(after) - set(before))
    require(all(after.get(k) == v for k, v in before.items()), f"{what}: existing files changed")
    readable = {"IC3", "GMSH", "CGNS"}
    if kind in readable and chosen == {kind} and not (kind == "IC3" and cmd == "vtk"):
        require(err is None, f"{what}: refused ({type(err).__name__}: {err})")
    elif not (kind in chosen and kind in readable):
        require(err is not None, f"{what}: not refused")
    if err is not None:
        require(not new, f"{what}: {new} created by a refused command")
        ctx.outcome(cmd, kind, fmt, os.path.splitext(name)[1], type(err).__name__)
    elif cmd == "info":
        require(not new, f"{what}: {new} created")
    else:
        require(len(new) == 1 and new[0].startswith("w/out/") and new[0].endswith(EXT[okind]), f"{what}: created {new}")
        judge_output(new[0], okind, xyz, ncell, what)
        if okind == "IC3":
            require(I.parse(after[new[0]])["version"] == int(cmd[1]), f"{what}: other IC3 version")
        ctx.outcome(cmd, kind, fmt, os.path.splitext(name)[1], "ok")
    os.unlink(src)
    ctx.state(cname, name, cmd, fmt, opts, order)
    ctx.count("evaluations")


def product(case, ctx):
    _, cname, ni, cmd = case
    for fmt, opts, order in itertools.product(FMTS, OPTS, (0, 1)):
        one(ctx, cname, NAMES[ni], cmd, fmt, opts, order)
    ctx.sample({"content": cname, "name": NAMES[ni], "command": cmd, "formats": FMTS})


def cube(case, ctx):
    name = NAMES[case[1]]
    os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
    for fmt, order in itertools.product(FMTS, (0, 1)):
        fa = [] if fmt is None else ["--fmt", fmt]
        size = ["--nx", "3", "--ny", "2", "--nz", "1"]
        argv = [[name] + fa + size, size + fa + [name]][order]
        res, err = call(cli.cfdwritecube, argv)
        now = sorted(tree("."))
        chosen = by_ext(name) if fmt is None else {fmt}
        what = f"cfdwritecube {argv}"
        if err is not None:
            require(not now, f"{what}: {now} created by a refused command")
            require(not (chosen == {"IC3"} or (chosen == {"VTK"} and fmt is None)), f"{what}: refused ({type(err).__name__}: {err})")
        else:
            require(bool(chosen & {"IC3", "VTK"}), f"{what}: not refused")
            require(now == [os.path.normpath(name)], f"{what}: created {now}")
            k = sorted(chosen & {"IC3", "VTK"})[0]
            xyz = [(i / 3, j / 2, float(l)) for i in range(4) for j in range(3) for l in range(2)]
            if k == "IC3":
                m = I.parse(open(now[0], "rb").read())
                got, n = m["xyz"], m["ncv"]
            else:
                g = pv.read(now[0])
                got, n = g.points, g.n_cells
            require(n == 6 and np.allclose(sorted(map(tuple, got.tolist())), sorted(xyz), atol=1e-6), f"{what}: the file does not hold the box")
            os.unlink(now[0])
        ctx.state("cube", name, fmt, order)
        ctx.outcome("cube", name, fmt, err is None)
        ctx.count("evaluations")
    ctx.sample({"box as": name})


class Registry:
    """the table of formats, restored on exit"""

    def __enter__(self):
        self.old = {k: dict(v) for k, v in A.api._fileformat_map.items()}
        return self

    def __exit__(self, *a):
        A.api._fileformat_map.clear()
        A.api._fileformat_map.update(self.old)


def user(case, ctx):
    """formats registered by a user are selected the same way; shared extensions need the format"""
    cname = case[1]
    with Registry():
        used = []

        def make(fmt):
            class reader:
                ncell = 4

                def __init__(self, filename, cIntegrity=False):
                    used.append((fmt, filename))

                def read_data(self):
                    pass

                def export_mesh(self):
                    return A.simple.Cube(2, 2, 1).export_mesh()

            return reader

        for fmt, ext in (("MY", ".my"), ("IC3BIS", ".ic3"), ("XYZ", ".xyz")):
            A.api.fileformat_reader(fmt, ext)(make(fmt))
        kind, data, xyz, ncell = contents()[cname]
        for name, fmt, cmd in itertools.product(("a.my", "a.ic3", "a.xyz", "a.msh", "a", "a.cgns.my"), (None, "MY", "IC3BIS", "XYZ", "IC3"), ("info", "v3", "vtk")):
            shutil.rmtree("w", ignore_errors=True)
            os.makedirs("w")
            with open(name, "wb") as f:
                f.write(data)
            used.clear()
            fn = CMDS[cmd][0]
            argv = [name] + ([] if fmt is None else ["--fmt", fmt]) + ([] if cmd == "info" else ["--outpath", "w"])
            res, err = call(fn, argv)
            what = f"{cname}: {cmd} {argv} with user formats"
            exts = {".my": ["MY"], ".xyz": ["XYZ"], ".ic3": ["IC3", "IC3BIS"], ".msh": ["GMSH"], "": []}
            chosen = exts[os.path.splitext(name)[1]] if fmt is None else [fmt]
            mine = [c for c in chosen if c in ("MY", "IC3BIS", "XYZ")]
            if len(chosen) == 1 and mine:
                require(err is None, f"{what}: refused ({type(err).__name__}: {err})")
                require(used == [(mine[0], name)], f"{what}: readers used {used}")
                if cmd != "info":
                    new = os.listdir("w")
                    require(len(new) == 1, f"{what}: created {new}")
                    judge_output("w/" + new[0], CMDS[cmd][1], [(i / 2, j / 2, k) for i in range(3) for j in range(3) for k in range(2)], 4, what)
            else:
                require(not used, f"{what}: readers used {used}")
                if len(chosen) != 1:
                    require(err is not None, f"{what}: not refused")
            if err is not None:
                require(not os.listdir("w"), f"{what}: file created by a refused command")
            os.unlink(name)
            ctx.state("user", cname, name, fmt, cmd)
            ctx.outcome("user", name, fmt, err is None)
            ctx.count("evaluations")


EVENTS = [(k, n, e) for k in ("reader", "writer") for n in ("A", "B", "IC3", "VTK") for e in (".a", {"IC3": ".ic3", "VTK": ".vtu"}.get(n, ".b"))]


def registry(case, ctx):
    """every history of registrations: nothing registered is lost, the class is returned unchanged"""
    base = {k: dict(v) for k, v in A.api._fileformat_map.items()}
    for n, parts in (("IC3", ("reader", "writer")), ("GMSH", ("reader",)), ("CGNS", ("reader",)), ("VTK", ("writer",))):
        require(n in base and base[n]["ext"] == EXT[n] and all(p in base[n] for p in parts), f"registered {n}: {base.get(n)}")

    class Sys:
        def __init__(self):
            A.api._fileformat_map.clear()
            A.api._fileformat_map.update({k: dict(v) for k, v in base.items()})
            self.want = {k: dict(v) for k, v in base.items()}
            self.n = 0

    def step(s, ev):
        k, n, e = ev
        cls = type(f"K{s.n}", (), {})
        s.n += 1
        got = (A.api.fileformat_reader if k == "reader" else A.api.fileformat_writer)(n, e)(cls)
        require(got is cls, f"{ev}: another class is returned")
        s.want.setdefault(n, {}).update({k: cls, "ext": e})
        s.hist = getattr(s, "hist", ()) + (ev,)

    def check(s, hist):
        now = {k: {p: q for p, q in v.items()} for k, v in A.api._fileformat_map.items()}
        require(sorted(now) == sorted(s.want), f"formats {sorted(now)}")
        for n, w in s.want.items():
            require({k: now[n].get(k) for k in ("reader", "writer", "ext")} == {k: w.get(k) for k in ("reader", "writer", "ext")}, f"format {n} is {now[n]} instead of {w}")
        p = cli.cli_argparser(prog="x")
        require(sorted(p._available_readers) == sorted(n for n, w in s.want.items() if "reader" in w), "readers offered by the commands")
        ctx.count("evaluations")

    def init():
        s = Sys()
        step(s, EVENTS[case[1]])
        return s

    with Registry():
        bfs(ctx, init, lambda s: EVENTS, step, lambda s: s.hist, check, 3 if ctx.tier == "thorough" else 2, "registry")
