"""C27 outputs never overwrite anything: file-system states under repeated naming and conversions."""
import hashlib
import itertools
import os
import shutil

import cfdtools._cli as cli

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from ..core import Violation, bfs, require

PROP, LEVEL = "C27", "model_checking"
ASSUMPTIONS = ["no other process creates files meanwhile", "numbered variants are stem(k)suffix, k = 1, 2, ..."]
NAMES = ["a.ic3", "a", "a.b.ic3", ".hid", "a(1).ic3", "a b.vtu", "x.tar.h5", "a(1)(1)"]
DEPTH = {"quick": 2, "thorough": 3}


def bounds(tier):
    return (f"naming: {len(NAMES)} names x all 2^4 sets of existing variants (files or folders) x 3 ways to give the folder x 5 successive requests; "
            f"commands: all histories to depth {DEPTH[tier]} of the {len(COMMANDS)} command/option combinations from {len(STARTS)} initial folders, "
            "states merged on the tree of names")


def variant(name, k):
    stem, suf = os.path.splitext(name)
    return name if k == 0 else f"{stem}({k}){suf}"


CMDS = {"ic3v2": (cli.cfdwrite_ic3v2, ".ic3"), "ic3v3": (cli.cfdwrite_ic3v3, ".ic3"), "vtk": (cli.cfdwrite_vtk, ".vtu")}
INPUTS = {"cwd": "case.ic3", "sub": "in/box.v1.ic3", "msh": "in/case.msh"}
COMMANDS = [("conv", c, i, o) for c in CMDS for i in INPUTS for o in (None, "out", "in")] + \
           [("cube", f, None, o) for f in ("case.ic3", "out/q.vtu", "n.w") for o in (None, "out")] + [("pack", None, None, None)]
COMMANDS = [c for c in COMMANDS if not (c[1] == "vtk" and c[2] != "msh")]  # meshes read from IC3 have no cells to write
STARTS = [(), ("out/case.ic3",), ("case.vtu/", "out/case(1).ic3"), ("case.ic3", "case(1).ic3", "in/case.ic3", "dumped.h5"), ("out/box.v1.ic3", "box.v1(2).ic3", "box.v1.ic3", "q.vtu", "out/q.vtu", "n.w")]


def cases(tier, seed):
    fix = []
    return [("name", n, ex) for n in NAMES for ex in range(16)] + [("cmd", s, c) for s in range(len(STARTS)) for c in range(len(COMMANDS))]


def naming(case, ctx):
    _, name, ex = case
    for kind, how in itertools.product(("file", "dir"), ("abs", "rel", "bare")):
        d = os.path.join(A.scratch(), f"n{os.getpid()}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        here = os.getcwd()
        try:
            os.chdir(d if how == "bare" else A.scratch())
            base = {"abs": d, "rel": os.path.basename(d), "bare": ""}[how]
            have = {}
            for k in range(4):
                if ex >> k & 1:
                    p = os.path.join(d, variant(name, k))
                    os.mkdir(p) if kind == "dir" else open(p, "w").write(str(k))
                    have[k] = kind
            for turn in range(5):
                f = A.api._files(os.path.join(base, name))
                changed = f.find_safe_newfile()
                k = next(i for i in itertools.count() if i not in have)
                want = os.path.join(d, variant(name, k))
                require(os.path.abspath(f.filename) == want, f"{sorted(have)} existing variants of {name}: {f.filename} chosen")
                require(bool(changed) == (k > 0), f"change reported: {changed} for variant {k}")
                require(not f.exists() and sorted(os.listdir(d)) == sorted(variant(name, i) for i in have), "files changed by choosing a name")
                open(f.filename, "w").write("new")
                have[k] = "new"
                ctx.count("transitions")
            for k, c in have.items():
                p = os.path.join(d, variant(name, k))
                require(os.path.isdir(p) if c == "dir" else open(p).read() in (str(k), "new"), f"{p} changed")
            ctx.state("name", name, ex, kind, how)
            ctx.count("traces_validated_against_impl")
        finally:
            os.chdir(here)
            shutil.rmtree(d, ignore_errors=True)


MSH = """$MeshFormat
2.2 0 8
$EndMeshFormat
$PhysicalNames
2
1 1 "wall"
2 2 "vol"
$EndPhysicalNames
$Nodes
4
1 0 0 0
2 1 0 0
3 1 1 0
4 0 1 0
$EndNodes
$Elements
5
1 1 2 1 1 1 2
2 1 2 1 1 2 3
3 1 2 1 1 3 4
4 1 2 1 1 4 1
5 3 2 2 1 1 2 3 4
$EndElements
"""


def snapshot(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for x in ds:
            out[os.path.relpath(os.path.join(r, x), d) + "/"] = None
        for x in fs:
            p = os.path.join(r, x)
            out[os.path.relpath(p, d)] = hashlib.md5(open(p, "rb").read()).hexdigest()
    return out


class Sys:
    def __init__(self, d, start):
        shutil.rmtree(d, ignore_errors=True)
        for x in ("", "in", "out"):
            os.makedirs(os.path.join(d, x))
        os.chdir(d)
        self.d = d
        m = A.simple.Cube(1, 1, 1).export_mesh()
        data = _box()
        for p in ("case.ic3", "in/box.v1.ic3"):
            open(p, "wb").write(data)
        open("in/case.msh", "w").write(MSH)
        import cfdtools.vtk as vtk
        vtk.vtkMesh(m).write_data("in/g.vtu")
        for p in start:
            if p.endswith("/"):
                os.mkdir(p)
            elif not os.path.exists(p):
                open(p, "w").write("precious " + p)
        self.before = snapshot(d)
        self.want = None


_cache = {}


def _box():
    if "b" not in _cache:
        from .. import ic3util as U
        _cache["b"] = U.write(A.simple.Cube(1, 1, 1).export_mesh(), 3)
    return _cache["b"]


def step(s, ev):
    s.before = snapshot(s.d)
    op, c, i, o = ev
    if op == "conv":
        fn, ext = CMDS[c]
        src = INPUTS[i]
        res = fn([src] + ([] if o is None else ["--outpath", o]))
        base = os.path.join(o or "", os.path.splitext(os.path.basename(src))[0] + ext)
    elif op == "cube":
        fmt = {"case.ic3": [], "out/q.vtu": [], "n.w": ["--fmt", "IC3"]}[c]
        res = cli.cfdwritecube([c, "--nx", "1", "--ny", "1", "--nz", "1"] + fmt + ([] if o is None else ["--outpath", o]))
        base = c if o is None else os.path.join(o, os.path.basename(c))
    else:
        res = cli.vtkpack(["in/g.vtu"])
        base = "dumped.h5"
    folder, name = os.path.split(base)
    names = {k.rstrip("/") for k in s.before}
    k = next(k for k in itertools.count() if os.path.join(folder, variant(name, k)) not in names)
    s.want = os.path.join(folder, variant(name, k))
    require(os.path.normpath(str(res)) == s.want, f"{ev}: {res} returned instead of {s.want}")


def check(s, hist):
    now = snapshot(s.d)
    for k, h in s.before.items():
        require(k in now and now[k] == h, f"existing {k} {'removed' if k not in now else 'modified'}")
    new = sorted(set(now) - set(s.before))
    require(new == ([s.want] if s.want else []), f"created {new} instead of {s.want}")


def run(case, ctx):
    if case[0] == "name":
        return naming(case, ctx)
    _, si, first = case
    d = os.path.join(A.scratch(), f"c{os.getpid()}")
    here = os.getcwd()

    def init():
        s = Sys(d, STARTS[si])
        step(s, COMMANDS[first])
        return s

    try:
        n = bfs(ctx, init, lambda s: COMMANDS, step, lambda s: tuple(sorted(snapshot(s.d))), check, DEPTH[ctx.tier] - 1, ("cmd",))
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl", n)
        ctx.sample({"start": STARTS[si], "first command": repr(COMMANDS[first]), "states": n})
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
