"""C40 a command that cannot do what it is asked says so and changes nothing: all products of commands, inputs and options, alone and in pairs."""
import contextlib
import io
import itertools
import logging
import os
import shutil
import subprocess
import sys

import h5py
import numpy as np

from .. import adapter as A
from .. import cgnsref as CG
from .. import gmshref as GM
from .. import ic3ref as I
from .. import meshspace as S
from .. import vtkgen
from . import c12, c16, c18

import cfdtools._cli as cli  # noqa: E402

PROP, LEVEL = "C40", "model_checking"
ASSUMPTIONS = ["vtkbrief is not judged on unreadable content: the VTK library reports nothing and returns an empty grid", "--extrude 0 and scalings by 0, nan or inf are not judged",
               "an exception, or an exit with a nonzero status, is a report; the status of a shell command is checked on a part of the space"]
CONV = ["cfdwrite_ic3v2", "cfdwrite_ic3v3", "cfdwrite_vtk"]
INFO = ["cfdinfo", "ic3brief"]
EXT = {"ic3": ".ic3", "msh2": ".msh", "msh4": ".msh", "cgns": ".cgns"}
FMT = {".ic3": "IC3", ".msh": "GMSH", ".cgns": "CGNS"}
BYTES = {}
JUNK = {"empty": b"", "newline": b"\n", "zeros": b"\0" * 1000, "text": b"hello\nworld 1 2 3\n" * 20, "numbers": b"1,2,3\n4,5,6\n", "ff": b"\xff" * 64, "one byte": b"\x89", "hdf5 magic": b"\x89HDF\r\n\x1a\n",
        "ic3 magic": b"\x00\x03\x82\x70", "gmsh head": b"$MeshFormat\n2.2 0 8\n$EndMeshFormat\n", "gmsh old": b"$NOD\n1\n1 0 0 0\n$ENDNOD\n$ELM\n0\n$ENDELM\n"}
# options no command can follow
BAD = [["--outpath", "nope"], ["--outpath", "plain"], ["--outpath", "dangling"], ["--bogus"], ["--fmt", "XX"], ["--fmt"], ["another"], ["--outpath"]]
BADCONV = [["--extrude", "-1"], ["--extrude", "-3"], ["--extrude", "1.5"], ["--extrude"], ["--extrude", "x"], ["--scale", "1", "2"], ["--scale", "a", "1", "1"], ["--scale"], ["--remove-cell-data"], ["--remove-node-data"]]
GOOD = [[], ["--outpath", "sub"], ["--check"], ["--info"], ["--scale", "2", "3", "4"], ["--log", "debug"]]
CUBE = [["--nx", "0"], ["--ny", "0"], ["--nz", "0"], ["--nx", "-1"], ["--ny", "-2"], ["--nz", "-1"], ["--nx", "1.5"], ["--nz", "x"], ["--nx"], ["--nx", "-1", "--ny", "-1"]]


def bounds(tier):
    return (f"commands {CONV + INFO + ['vtkpack', 'vtkbrief', 'cfdwritecube']} x inputs (4 valid files, {len(JUNK) + 6} other contents under each extension, missing files, folders, no or unknown extension) x "
            f"{len(BAD) + len(BADCONV)} wrong options, alone and in pairs with the {len(GOOD)} right ones; every refused command followed by a right one in the same process (pairs); status from a shell")


def setup(tier=None):
    """scratch content: bytes of the valid files"""
    cells, xyz = c16.small()["g22"]
    nb = len(c16.bfaces(cells))
    m2 = c16.model(cells, xyz, [None] * (nb - 1) + [0], [[1]], [(1, 1, "m")])
    c3, x3 = c16.small()["hex"]
    m3 = c16.model(c3, x3, [None] * 5 + [0], [[1]], [(2, 1, "m")])
    BYTES.update(ic3=I.emit(c12.model(0, 2, "<")), msh2=GM.v2(m2).encode(), msh4=GM.v4(m3).encode())
    d = A.scratch()
    p = os.path.join(d, "c40")
    CG.write(p + ".cgns", c18.model(cells, xyz, [None] * (nb - 1) + [0], "vertex", 0))
    g = vtkgen.grid(*S.hexgrid(2, 1, 1))
    g.cell_data["P"] = np.arange(2.0)
    g.save(p + ".vtu")
    with h5py.File(p + ".h5", "w") as f:
        f.attrs["a"] = 1
    for k, e in (("cgns", ".cgns"), ("vtu", ".vtu"), ("h5", ".h5")):
        BYTES[k] = open(p + e, "rb").read()
        os.unlink(p + e)


def cases(tier, seed):
    logging.disable(logging.CRITICAL)
    try:
        setup()
    finally:
        logging.disable(logging.NOTSET)
    out = [("content", c) for c in CONV + INFO] + [("options", c, k) for c in CONV + INFO + ["vtkbrief"] for k in EXT] + [("names", c) for c in CONV + INFO + ["vtkbrief", "vtkpack"]]
    out += [("cube", j) for j in range(4)] + [("vtkpack",)] + [("then", c, k) for c in CONV + INFO for k in range(4)] + [("shell", c) for c in CONV + INFO + ["cfdwritecube", "vtkpack", "vtkbrief"]]
    return out


@contextlib.contextmanager
def scratch():
    d = os.path.join(A.scratch(), f"refuse{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + "/sub")
    here = os.getcwd()
    os.chdir(d)
    try:
        open("plain", "w").write("x\n")
        os.symlink("nowhere/at/all", "dangling")
        for k, e in EXT.items():
            with open(k + e, "wb") as f:
                f.write(BYTES[k])
        with open("g.vtu", "wb") as f:
            f.write(BYTES["vtu"])
        for e in (".ic3", ".msh", ".cgns", ".vtu"):
            os.mkdir("folder" + e)
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


def tree():
    out = {}
    for d, ds, fs in os.walk("."):
        for f in fs:
            p = os.path.join(d, f)
            out[p] = os.readlink(p) if os.path.islink(p) else open(p, "rb").read()
        out.update({os.path.join(d, x) + "/": None for x in ds})
    return out


def call(cmd, argv):
    """(the report, or None, the returned value)"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            return None, getattr(cli, cmd)(list(argv))
    except SystemExit as e:
        return (f"exit {e.code}" if e.code else None), None
    except Exception as e:
        return type(e).__name__, None


def undo(before):
    now = tree()
    for p in sorted(set(now) - set(before), reverse=True):
        shutil.rmtree(p) if p.endswith("/") else os.unlink(p)


def refused(ctx, cmd, argv, before, sig, shell=False):
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl")
    ctx.state(cmd, argv, shell)
    if shell:
        r = subprocess.run([sys.executable, "-c", f"import sys, cfdtools._cli as c\nsys.argv = ['x'] + {argv!r}\nsys.exit(c.{cmd}())"], capture_output=True, timeout=200)
        err = r.returncode or None
    else:
        err, _ = call(cmd, argv)
    if err is None:
        ctx.fail(f"{cmd} {argv}: no error is reported", sig)
    now = tree()
    if now != before:
        ctx.fail(f"{cmd} {argv}: reported {err}, but files changed: {sorted(k for k in set(now) | set(before) if now.get(k, 0) != before.get(k, 0))}", sig)
        undo(before)
    ctx.outcome(cmd, str(err))


def accepted(ctx, cmd, argv, before, sig):
    """a right call: works, touches nothing that was there; the bytes written"""
    ctx.count("transitions")
    ctx.state(cmd, argv)
    err, out = call(cmd, argv)
    now = tree()
    new = sorted(set(now) - set(before))
    if err is not None:
        ctx.fail(f"{cmd} {argv}: refused ({err})", sig)
    if any(now.get(k, 0) != v for k, v in before.items()):
        ctx.fail(f"{cmd} {argv}: changed files that were there", sig)
    if len(new) != (cmd in CONV or cmd in ("cfdwritecube", "vtkpack")):
        ctx.fail(f"{cmd} {argv}: wrote {new}", sig)
    got = [(k, None if cmd == "cfdwrite_vtk" or cmd == "vtkpack" else now[k]) for k in new]
    undo(before)
    return got


def run(case, ctx):
    with scratch():
        {"content": contents, "options": options, "names": names, "cube": cube, "vtkpack": pack, "then": then, "shell": shell}[case[0]](case, ctx)
    ctx.sample({"case": case})


def contents(case, ctx):
    cmd = case[1]
    for ext, kinds in ((".ic3", ["ic3"]), (".msh", ["msh2", "msh4"]), (".cgns", ["cgns"])):
        for name, data in {**JUNK, **BYTES}.items():
            with open("in" + ext, "wb") as f:
                f.write(data)
            before = tree()
            for opts in ([], ["--fmt", FMT[ext]], ["--outpath", "sub"], ["--check"]) if cmd != "ic3brief" else ([], ["--check"]):
                good = name in kinds if cmd != "ic3brief" else name == "ic3"
                if name == "ic3" and cmd == "cfdwrite_vtk" and good:
                    good = False  # not available
                (accepted if good else refused)(ctx, cmd, ["in" + ext] + opts, before, f"content:{cmd}:{name}")
            os.unlink("in" + ext)
    # the format asked for and the one of the file
    for name, ext in [(k, EXT[k]) for k in EXT] if cmd != "ic3brief" else []:
        for e2, fmt in FMT.items():
            with open("in" + e2, "wb") as f:
                f.write(BYTES[name])
            before = tree()
            for f2 in FMT.values():
                good = f2 == FMT[ext] and not (cmd == "cfdwrite_vtk" and name == "ic3")
                (accepted if good else refused)(ctx, cmd, ["in" + e2, "--fmt", f2], before, f"format:{cmd}:{name}")
            os.unlink("in" + e2)


def options(case, ctx):
    _, cmd, kind = case
    before = tree()
    file = kind + EXT[kind] if cmd not in ("ic3brief", "vtkbrief") else "ic3.ic3" if cmd == "ic3brief" else "g.vtu"
    bad = [b for b in BAD if cmd in CONV or b[0] != "--outpath" or len(b) == 1] + (BADCONV if cmd in CONV else [["--scale", "1", "1", "1"], ["--extrude", "1"], ["--remove-cell-data", "P"]])
    if cmd in CONV and kind in ("ic3", "msh4"):
        bad = bad + [["--extrude", "1"], ["--extrude", "2", "--scale", "1", "1", "1"]]
    if cmd in CONV:
        bad = bad + [["--fmt", f] for f in FMT.values() if f != FMT[EXT[kind]]]
    good = [g for g in GOOD if cmd in CONV or g[:1] not in (["--scale"],)]
    for b in bad:
        for g in good:
            if g[:1] == b[:1]:
                continue
            for argv in ([file] + g + b, [file] + b + g, g + [file] + b):
                refused(ctx, cmd, argv, before, f"option:{cmd}:{b[0]}")
    for b, c in itertools.permutations(bad, 2):
        if b[0] != c[0] and not (c == ["another"] and b in (["--remove-cell-data"], ["--remove-node-data"], ["--outpath"])):  # its value
            refused(ctx, cmd, [file] + b + c, before, f"options:{cmd}:{b[0]}")
    if cmd != "cfdwrite_vtk" or kind != "ic3":
        for g in good:
            accepted(ctx, cmd, [file] + g, before, f"good:{cmd}")


def names(case, ctx):
    cmd = case[1]
    before = tree()
    ex = {"vtkbrief": (".vtu",), "vtkpack": (".vtu",), "ic3brief": (".ic3",)}.get(cmd, tuple(FMT))
    bad = [n + e for e in ex for n in ("nofile", "nodir/file", "folder", "plain/file", "dangling/file")] + ["", ".", "..", "plain", "sub", "dangling", "nofile", "nofile.xyz", "plain.", ".ic3", "/", "sub/"]
    for b in bad:
        for g in ([], ["--outpath", "sub"], ["--check"], ["--info"], ["--fmt", "IC3"], ["--fmt", "GMSH"]) if cmd != "vtkpack" else ([],):
            if cmd == "vtkbrief" and g[:1] == ["--fmt"]:
                continue
            refused(ctx, cmd, [b] + g, before, f"name:{cmd}")
    refused(ctx, cmd, [], before, f"name:{cmd}")


def cube(case, ctx):
    before = tree()
    for f in (["new.ic3"], ["sub/new.ic3"], ["ic3.ic3"], ["new", "--fmt", "IC3"])[case[1]:case[1] + 1]:
        for b in CUBE:
            for g in ([], ["--nx", "2", "--ny", "1", "--nz", "1"], ["--outpath", "sub"]):
                refused(ctx, "cfdwritecube", f + g + b, before, "cube:size")
        for b in (["--outpath", "nope"], ["--outpath", "plain"], ["--bogus"], ["--fmt", "XX"], ["another"]):
            refused(ctx, "cfdwritecube", f + ["--nx", "1"] + b, before, "cube:option")
        accepted(ctx, "cfdwritecube", f + ["--nx", "2", "--ny", "1", "--nz", "1"], before, "cube:good")
        accepted(ctx, "cfdwritecube", f + ["--nx", "1", "--outpath", "sub"], before, "cube:good")
    for f in ("new.xyz", "new", "nodir/new.ic3", "plain/new.ic3", "", ".", "dangling/new.ic3"):
        refused(ctx, "cfdwritecube", [f, "--nx", "1", "--ny", "1", "--nz", "1"], before, "cube:name")


def pack(case, ctx):
    for n, d in JUNK.items():
        with open("junk.vtu", "wb") as f:
            f.write(d)
        before = tree()
        for l in (["junk.vtu"], ["g.vtu", "junk.vtu"], ["junk.vtu", "g.vtu"], ["g.vtu", "g.vtu", "junk.vtu"]):
            refused(ctx, "vtkpack", l, before, "vtkpack")
        os.unlink("junk.vtu")
    before = tree()
    for l in itertools.permutations(["g.vtu", "nofile.vtu", "folder.vtu"]):
        for k in (1, 2, 3):
            if list(l[:k]) != ["g.vtu"]:
                refused(ctx, "vtkpack", list(l[:k]), before, "vtkpack")
    accepted(ctx, "vtkpack", ["g.vtu"], before, "vtkpack")
    accepted(ctx, "vtkpack", ["g.vtu", "g.vtu"], before, "vtkpack")


def then(case, ctx):
    """a refused command, then a right one: same file as without it"""
    _, cmd, k = case
    for n, d in JUNK.items():
        for e in (".ic3", ".msh", ".cgns"):
            with open(n + e, "wb") as f:
                f.write(d)
    before = tree()
    bad = [(c, [n + e]) for c in CONV + INFO for n in JUNK for e in (".ic3", ".msh", ".cgns")] + [(c, [f] + b) for c in CONV for f in ("msh2.msh", "ic3.ic3") for b in BAD + BADCONV]
    good = [(c, [f] + g) for c in CONV + INFO for f in [x + e for x, e in EXT.items()] for g in ([], ["--outpath", "sub"])
            if not (c == "cfdwrite_vtk" and f == "ic3.ic3") and not (c == "ic3brief" and f != "ic3.ic3")]
    want = [accepted(ctx, c, a, before, "then:good") for c, a in good]
    for i, (c, a) in enumerate(bad):
        if c != cmd or i % 4 != k:
            continue
        refused(ctx, c, a, before, f"then:{c}")
        for (c2, a2), w in zip(good, want):
            ctx.state(c, a, c2, a2)
            if accepted(ctx, c2, a2, before, f"then:{c2}") != w:
                ctx.fail(f"{c2} {a2} writes something else after {c} {a} was refused", f"then:{c2}")


def shell(case, ctx):
    cmd = case[1]
    before = tree()
    if cmd == "cfdwritecube":
        l = [["new.ic3", "--nx", "0"], ["new.ic3", "--nx", "-1"], ["new.xyz"], ["nodir/new.ic3", "--nx", "1"], ["new.ic3", "--nx", "1", "--outpath", "nope"]]
    elif cmd == "vtkpack":
        l = [["nofile.vtu"], ["g.vtu", "nofile.vtu"], ["folder.vtu"], []]
    elif cmd == "vtkbrief":
        l = [["nofile.vtu"], ["folder.vtu"], []]
    else:
        l = [["nofile.ic3"], ["folder.ic3"], ["plain"], [], ["ic3.ic3", "--bogus"]] + ([["msh2.ic3"], ["msh2.msh", "--outpath", "nope"], ["msh2.msh", "--extrude", "-1"]] if cmd in CONV else [])
        with open("msh2.ic3", "wb") as f:
            f.write(BYTES["msh2"])
        before = tree()
    for a in l:
        refused(ctx, cmd, a, before, f"shell:{cmd}", shell=True)
