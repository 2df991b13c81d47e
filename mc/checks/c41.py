"""C41 commands and library calls running at the same time in one folder: all interleavings of their file operations, up to a number of switches."""
import contextlib
import io
import logging
import os
import shutil

import cfdtools._cli as cli
import cfdtools.cgns as cgns
import cfdtools.gmsh as gmsh
import cfdtools.ic3 as ic3
import cfdtools.ic3.readerV4
import cfdtools.ic3.writerV4
import cfdtools.vtk as vtk
from cfdtools.meshbase.simple import Cube

from .. import adapter as A
from .. import cgnsref as CG
from .. import fsops
from .. import gmshref as GM
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from .. import vtkgen as V
from . import c16, c18
from .c15 import h5_dump

PROP, LEVEL = "C41", "model_checking"
ASSUMPTIONS = ["two processes; an operation on a file (look, open, write, close, rename, remove) is atomic; reads of a file are not separated from its opening",
               "partial-order reduction: a switch before a write or close of a file the other process never touches, and a second switch (third, for pairs with less than 900 products of operations, in the thorough tier) before any operation which commutes with all those of the other, "
               "are the same as a switch after it"]
SWITCHES = {"quick": 2, "thorough": 3}


def bounds(tier):
    return (f"{len(PAIRS)} pairs of {len(JOBS)} commands and library calls in one folder (inputs and outputs distinct, shared, or one the input of the other), all interleavings of their file "
            f"operations with at most {SWITCHES[tier]} switches ({'2 ' if tier != 'quick' else 'as well '}for the pair with more than 4000 products of operations), every result compared with the two sequential ones")


# ------------------------------------------------------------------------------------------------------------- folder and jobs
def inputs():
    cells, xyz = S.grid2d(2, 1, ("quad4",))
    m = c16.model(cells, xyz, [0] + [None] * (len(c16.bfaces(cells)) - 1), [[1]], [(1, 1, "wall"), (2, 1, "vol")])
    open("a.msh", "w").write(GM.v2(m))
    open("b.msh", "w").write(GM.v4(m))
    cells, xyz = S.hexgrid(1, 1, 1)
    CG.write("a.cgns", c18.model(cells, xyz, [0] * len(c16.bfaces(cells)), "face", 0, physdim=3))
    CG.write("c.cgns", c18.model(cells, xyz, [0] * len(c16.bfaces(cells)), "node", 0, physdim=3))
    os.mkdir("in")
    for n, v, e in (("in/a.ic3", 2, "<"), ("in/d.ic3", 3, ">")):
        open(n, "wb").write(I.emit(G.base(*S.hexgrid(2, 1, 1), v, e)))
    for i in range(2):
        g = V.grid(*S.hexgrid(2, 1, 1))
        g.cell_data["P"] = [1.0 + i, 2.0]
        g.save(f"s{i}.vtu")
    ic3.writerV4.writer(Cube(1, 1, 2).export_mesh()).write_data("in/m.h5", "in/s.h5")


def quiet(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        r = fn(*a)
    return r, out.getvalue()


def summary(m):
    return repr((m.ncell, m.nnode, sorted(m._bocos), m.nodescoord(ndarray=True).tolist()))


def reading(cls, *names):
    r = cls(*names)
    r.read_data()
    return summary(r.export_mesh())


def series():
    s = vtk.vtkList(["s0.vtu", "s1.vtu"])
    s.read()
    return s.dumphdf("pack.h5", xdmf=True)


JOBS = {
    "gmsh to V2": lambda: quiet(cli.cfdwrite_ic3v2, ["a.msh", "--scale", "2", "1", "1"]),
    "gmsh to V3": lambda: quiet(cli.cfdwrite_ic3v3, ["b.msh", "--extrude", "1"]),
    "same gmsh to V3": lambda: quiet(cli.cfdwrite_ic3v3, ["a.msh"]),
    "gmsh to vtk": lambda: quiet(cli.cfdwrite_vtk, ["a.msh"]),
    "cgns to V3": lambda: quiet(cli.cfdwrite_ic3v3, ["c.cgns"]),
    "other cgns to V2": lambda: quiet(cli.cfdwrite_ic3v2, ["a.cgns"]),
    "ic3 to V2": lambda: quiet(cli.cfdwrite_ic3v2, ["in/d.ic3"]),
    "box": lambda: quiet(cli.cfdwritecube, ["e.ic3", "--nx", "1", "--ny", "2", "--nz", "1"]),
    "pack": lambda: quiet(cli.vtkpack, ["s0.vtu", "s1.vtu"]),
    "series": series,
    "info gmsh": lambda: quiet(cli.cfdinfo, ["a.msh"]),
    "info cgns": lambda: quiet(cli.cfdinfo, ["c.cgns"]),
    "info vtk": lambda: quiet(cli.vtkbrief, ["s0.vtu"]),
    "brief": lambda: quiet(cli.ic3brief, ["in/d.ic3"]),
    "brief of the box": lambda: quiet(cli.ic3brief, ["e.ic3"]),
    "info of the box": lambda: quiet(cli.cfdinfo, ["e.ic3"]),
    "V4": lambda: ic3.writerV4.writer(Cube(1, 2, 1).export_mesh()).write_data("f.h5", "g.h5"),
    "V4 of the same": lambda: ic3.writerV4.writer(Cube(1, 1, 1).export_mesh()).write_data("i.h5", "j.h5"),
    "read V4": lambda: reading(ic3.readerV4.reader, "in/m.h5", "in/s.h5"),
    "read the new V4": lambda: reading(ic3.readerV4.reader, "f.h5", "g.h5"),
    "read cgns": lambda: reading(cgns.cgnsMesh, "c.cgns"),
    "read gmsh": lambda: reading(gmsh.reader, "b.msh"),
    "V2": lambda: ic3.writerV2.writer(Cube(1, 1, 2).export_mesh()).write_data("h.ic3"),
    "read ic3": lambda: reading(ic3.reader_legacy.reader, "in/a.ic3"),
}
NAMES = list(JOBS)
PAIRS = [(a, b) for i, a in enumerate(NAMES) for b in NAMES[i:] if not (a == b and a in ("V4", "V2", "V4 of the same"))]
_tmpl = []


def template():
    """folder holding the inputs, made once per process"""
    if not _tmpl:
        d = os.path.join(A.scratch(), f"tmpl{os.getpid()}")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chdir(d)
        inputs()
        _tmpl.append(d)
        warm = os.path.join(A.scratch(), f"warm{os.getpid()}")  # modules loaded on first use
        shutil.rmtree(warm, ignore_errors=True)
        shutil.copytree(d, warm)
        os.chdir(warm)
        for j in NAMES:
            with contextlib.suppress(Exception):
                JOBS[j]()
        os.chdir(d)
        shutil.rmtree(warm)
    return _tmpl[0]


def root():
    return os.path.join(A.scratch(), f"both{os.getpid()}")


def fresh():
    t, d = template(), root()
    os.chdir(t)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(t, d)
    os.chdir(d)
    return d


_input = {}


def content():
    """{file: content} of the folder"""
    out = {}
    for base, _, files in os.walk("."):
        for f in files:
            p = os.path.join(base, f)
            data = open(p, "rb").read()
            if f.endswith((".h5", ".cgns")):
                k = fsops.digest(data)
                if k not in _input:
                    try:
                        _input[k] = h5_dump(p)
                    except OSError:
                        _input[k] = "unreadable"
                out[p] = _input[k]
            else:
                out[p] = data
    return out


def outcome(procs):
    """results and folder: what is refused is refused, whatever the reason given"""
    return ([p.result if p.result and p.result[0] else (False, "killed" if p.result is None else "refused") for p in procs], content())


LIMIT = 600


def schedule(jobs, first, points):
    """runs both jobs; points: number of operations before each switch; returns (processes, trace, number of points actually used)"""
    d = fresh()
    ps = [fsops.Proc(JOBS[j], d) for j in jobs]
    cur, trace = first, []
    for n in list(points) + [LIMIT, LIMIT, LIMIT, LIMIT]:
        for _ in range(n):
            if not ps[cur].pending:
                break
            trace.append((cur,) + ps[cur].pending)
            ps[cur].go()
            if ps[cur].pending and ps[cur].pending[0] == "waiting":
                break
        cur = 1 - cur
    late = [p.pending for p in ps]
    for p in ps:
        p.drop()
    return ps, trace, late


def cases(tier, seed):
    fsops.ensure()
    return [(k, first) for k in range(len(PAIRS)) for first in (0, 1)]


CASE_TIMEOUT = 800


def steps(trace, who):
    return [t[1:] for t in trace if t[0] == who]


def private(op, other):
    return op[0] in ("write", "close", "truncate") and op[1] not in other


def independent(op, other):
    """op commutes with all the operations of the other process: they are on other names, or both only look"""
    look = ("stat", "openr")
    return not any(o[1] == op[1] and not (o[0] in look + ("close",) and op[0] in look + ("close",)) for o in other)


def run(case, ctx):
    k, first = case
    jobs = PAIRS[k]
    if first == 1 and jobs[0] == jobs[1]:
        return
    logging.disable(logging.CRITICAL)
    here = os.getcwd()
    try:
        explore(jobs, first, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(root(), ignore_errors=True)


def explore(jobs, first, ctx):
    serial, solo = [], {}
    for f in (0, 1):
        ps, trace, late = schedule(jobs, f, (LIMIT,))
        serial.append(outcome(ps))
        solo[f] = steps(trace, f)
        if any(late):
            return ctx.fail(f"{jobs}: {late} after one another", "endless")
    seen = set()
    touched = [{op[1] for op in solo[f]} for f in (0, 1)]

    def go(points):
        ps, trace, late = schedule(jobs, first, points)
        t = tuple(trace)
        if t not in seen:
            seen.add(t)
            ctx.count("transitions", len(t))
            ctx.count("traces_validated_against_impl")
            ctx.state(jobs, [(w, o, n) for w, o, n, _ in t])
            judge(ctx, jobs, first, points, ps, trace, late, serial)
        return ps, trace

    def extend(points, trace):
        """one more switch, at every point of what ran after the last one"""
        who = first if len(points) % 2 == 0 else 1 - first
        theirs = solo[1 - who] + (steps(trace, 1 - who) if points else [])
        done = sum(points[-2::-2]) if len(points) > 1 else 0
        mine = steps(trace, who) if points else solo[who]
        for n in range(1 if points or first else 0, len(mine) - done):
            op = mine[done + n]
            if n and (private(op, touched[1 - who]) if not points or len(points) == 1 and ctx.tier != "quick" and len(theirs) * len(mine) < 900 else independent(op, theirs)):
                continue
            _, tr = go(points + (n, LIMIT))
            if len(points) + 1 < (SWITCHES[ctx.tier] if len(solo[0]) * len(solo[1]) < 4000 else 2):
                extend(points + (n,), tr)

    extend((), None)
    ctx.outcome(jobs, len(serial[0][1]), [r[0] for r in serial[0][0]], serial[0] == serial[1])
    ctx.sample({"pair": jobs, "first": first, "operations": [len(solo[0]), len(solo[1])], "schedules": len(seen)})


def judge(ctx, jobs, first, points, ps, trace, late, serial):
    what = f"{jobs[0]} | {jobs[1]}, {('first', 'second')[first]} one begins, switches after {points[:-1]} operations"
    if any(late):
        return ctx.fail(f"{what}: {late} is never over", "endless")
    res, now = outcome(ps)
    if (res, now) in serial:
        return
    sig = "same-name" if same_name(trace, res, now, serial) else "interleaving"
    diff = sorted(n for n in set(now) | set(serial[0][1]) if now.get(n) != serial[0][1].get(n))
    ctx.fail(f"{what}: neither of the sequential results: {[(r[0], str(r[1])[:60]) for r in res]} and files {diff}", sig)


def same_name(trace, res, now, serial):
    """both processes saw that one name was free before either created that file; all the rest is right"""
    at = lambda w, o, n: [i for i, t in enumerate(trace) if t[0] == w and t[1] == o and t[2] == n and (o == "stat" or t[3] & 4)]
    made = [{t[2] for t in trace if t[0] == w and t[1] == "openw" and t[3] & 4} for w in (0, 1)]  # 4: O_CREAT
    both = [n for n in made[0] & made[1] if all(at(w, "stat", n) and at(w, "stat", n)[0] < at(1 - w, "openw", n)[0] for w in (0, 1))]
    if not both:
        return False
    for n, v in now.items():
        got = [serial[k][1].get(n) for k in (0, 1)]
        if n[2:] not in both and v not in got and not (got != [None, None] and n.endswith(".xmf")):  # the index of a pack names its data file
            return False
    for n, v in serial[0][1].items():  # the inputs
        if os.path.exists(os.path.join(template(), n)) and now.get(n) != v:
            return False
    return all(not r[0] or r[1] in [serial[k][0][w][1] for k in (0, 1)] for w, r in enumerate(res))
