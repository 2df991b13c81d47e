"""C38 GMSH and CGNS files cut short anywhere: refused (by the readers, the information tool and the converters, which then write
nothing) unless nothing of the mesh is missing."""
import contextlib
import io
import os
import shutil

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import meshspace as S
from ..core import require
from . import c16, c18

import cfdtools._cli as cli  # noqa: E402
import cfdtools.cgns as cgns  # noqa: E402
import cfdtools.gmsh as gmsh  # noqa: E402

PROP, LEVEL = "C38", "fault_enumeration"
ASSUMPTIONS = ["the stop is modelled as a truncation at a byte boundary; any exception, exit or nonzero status is an error report",
               "what follows the last element of a GMSH file (its closing line, sections the reader does not use) can be missing without consequence only if the mesh is the complete one"]
RULE = ("every byte length 0..size of every generated file is one fault point; distinct = distinct (file, length); files: GMSH 2.2 and 4.1 over meshes, layouts, line ends and "
        "additional sections, CGNS with conditions on nodes, faces and elements; commands cfdinfo and cfdwrite_ic3v2, _ic3v3, _vtk on some of them")
LAYOUTS = [({}, {}), (dict(ntags=4, extra=("comments", "data")), dict(extra=("comments", "periodic"), parametric=True)),
           (dict(eol="\r\n", ntags=3), dict(eol="\r\n", merge=False)), (dict(extra=("periodic", "data"), start=7), dict(extra=("data",), start=7, style=1)),
           (dict(style=1), dict(entities=True, style=1))]
CMDS = ["cfdinfo", "cfdwrite_ic3v2", "cfdwrite_ic3v3", "cfdwrite_vtk"]


def bounds(tier):
    return RULE + f"; {len(files(tier))} files"


def gmodel(name, place="after", pat=0):
    cells, xyz = c16.small()[name]
    from .. import refmesh as R
    dim = R.DIM[cells[0][0]]
    groups, names = c16.gnames(c16.GROUPS[pat], dim)
    nb = len(c16.bfaces(cells))
    n = len(xyz)
    tags = [3 * i + 8 for i in range(n)] if pat == 2 else None
    return c16.model(cells, xyz, [i % 3 for i in range(nb)], groups, names, place=place, tags=tags, extra_low=pat == 1)


def cmodel(name, mode, i):
    cells, xyz = c18.small2()[name]
    nb = len(c16.bfaces(cells))
    return c18.model(cells, xyz, [k % 3 for k in range(nb)], mode, i % len(c18.FAMS), ("type", "cell")[i % 2], gc=i % 3)


def files(tier):
    """[(kind, label, model, bytes, with commands)]"""
    out = []
    meshes = ("tri", "quad", "trq", "tet", "pyr", "prism", "hex", "hp") + (("hpr", "tet6", "g22") if tier != "quick" else ())
    for j, name in enumerate(meshes):
        for i, (k2, k4) in enumerate(LAYOUTS):
            if tier == "quick" and (i + j) % 3:
                continue
            m = gmodel(name, ("after", "before", "ent", "mixed")[(i + j) % 4], (i + j) % 3)
            out.append(("gmsh", f"{name} V2 layout {i}", m, GM.v2(m, **k2).encode(), i == j % 5))
            out.append(("gmsh", f"{name} V4 layout {i}", m, GM.v4(m, **k4).encode(), i == (j + 1) % 5))
    for j, (name, mode) in enumerate([("trq", "vertex"), ("hp", "face"), ("tet", "elem")] + ([("hex", "mix"), ("quad", "face"), ("prism", "vertexloc")] if tier != "quick" else [])):
        m = cmodel(name, mode, j)
        p = os.path.join(A.scratch(), "whole.cgns")
        CG.write(p, m)
        out.append(("cgns", f"{name} {mode}", m, open(p, "rb").read(), tier != "quick"))
        os.unlink(p)
    return out


FILES = []


def cases(tier, seed):
    FILES[:] = files(tier)
    out = []
    for f, (kind, _, _, d, cmds) in enumerate(FILES):
        n = len(d)
        step = 2000 if kind == "cgns" else 700
        out += [(f, None, k, min(k + step, n + 1)) for k in range(0, n + 1, step)]
        if cmds:
            step = 1500 if kind == "cgns" else 150
            every = 16 if kind == "cgns" else 1
            out += [(f, c, k, min(k + step * every, n + 1), every) for c in CMDS[: 2 if kind == "cgns" else 4] for k in range(0, n + 1, step * every)]
    return out


def close(r):
    f = getattr(getattr(r, "_file", None), "_h5file", None)
    if f:
        f.close()


def content(mesh):
    return (mesh.ncell, mesh.nnode, A.coords(mesh).tolist(), sorted(A.cells(mesh).items()),
            sorted((n, b.type, sorted(int(i) for i in b.index.list())) for n, b in A.marks(mesh).items()))


def read(kind, path):
    """None when the file is refused"""
    r = None
    try:
        r = (gmsh.reader if kind == "gmsh" else cgns.cgnsMesh)(path)
        r.read_data()
        return r.export_mesh()
    except (Exception, SystemExit):
        return None
    finally:
        close(r)


def run(case, ctx):
    f, cmd, lo, hi = case[:4]
    kind, label, m, data, _ = FILES[f]
    ext = {"gmsh": ".msh", "cgns": ".cgns"}[kind]
    d = os.path.join(A.scratch(), f"cut{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        with open("whole" + ext, "wb") as g:
            g.write(data)
        if kind == "gmsh":
            c16.check_read(data.decode(), m, label)
        whole = read(kind, "whole" + ext)
        require(whole is not None, f"{label}: the complete file is refused", "whole")
        want = content(whole)
        n_ok = 0
        for n in range(lo, hi, case[4] if len(case) > 4 else 1):
            with open("a" + ext, "wb") as g:
                g.write(data[:n])
            ctx.count("evaluations")
            ctx.state(label, cmd, n)
            if cmd is None:
                mesh = read(kind, "a" + ext)
                if mesh is not None:
                    n_ok += 1
                    require(content(mesh) == want, f"{label}: the first {n} of {len(data)} bytes are accepted and give another mesh: {mesh.nnode} nodes, {mesh.ncell} cells, "
                            f"marks {sorted(A.marks(mesh))} instead of {want[1]}, {want[0]}, {[k[0] for k in want[4]]}", f"cut:{kind}")
            else:
                n_ok += command(ctx, cmd, kind, label, data, n, ext)
        ctx.outcome(label, cmd, n_ok)
        ctx.sample({"file": label, "command": cmd, "size": len(data), "lengths": [lo, hi - 1], "accepted": n_ok})
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def call(cmd, path):
    """(refused, files written)"""
    os.makedirs("out", exist_ok=True)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            getattr(cli, cmd)([path] + ([] if cmd == "cfdinfo" else ["--outpath", "out"]))
        bad = False
    except (Exception, SystemExit):
        bad = True
    left = sorted(os.listdir("out"))
    shutil.rmtree("out")
    return bad, left


def command(ctx, cmd, kind, label, data, n, ext):
    bad, left = call(cmd, "a" + ext)
    refused = read(kind, "a" + ext) is None
    if bad != refused:
        whole = call(cmd, "whole" + ext)[0]
        # a command may refuse a complete mesh (unmarked faces for instance): only what it accepts of a cut file is judged
        if not (whole and not refused):
            ctx.fail(f"{label} cut to {n} of {len(data)} bytes: {cmd} {'refuses' if bad else 'accepts'} it, the reader {'refuses' if refused else 'accepts'} it", f"cmd:{cmd}:{kind}")
    if refused and left:
        ctx.fail(f"{label} cut to {n} of {len(data)} bytes: {cmd} wrote {left}", f"cmd:{cmd}:{kind}")
    return not bad
