"""C43 an interruption (Ctrl-C) or a lack of memory at any line executed by an export or a command: reported, earlier files intact, what is left refused or complete, the process still works."""
import collections
import contextlib
import io
import logging
import os
import shutil
import sys

import cfdtools
import cfdtools._cli as cli
import cfdtools.ic3 as ic3
import cfdtools.ic3.readerV4

from .. import adapter as A
from .. import ic3ref as I
from ..core import child
from . import c12, c37, c41, c42

PROP, LEVEL = "C43", "fault_enumeration"
ASSUMPTIONS = ["the interruption strikes between two lines of the package, not within numpy, h5py or VTK", "what is left of a .vtu file or of a pack, which the package does not read, is not judged",
               "a library export is repeated with a mesh made again: the state of a mesh being exported when the interruption strikes is not judged"]
RULE = ("every line executed in the package by each export or command is a fault point: KeyboardInterrupt is raised before its first and its last execution, MemoryError before its first execution by each way (chain of calls within the package) it is reached "
        "(thorough: both before the first, every 64th and the last execution by each way); distinct = distinct (export, mesh, line, execution, exception)")
FAULTS = (KeyboardInterrupt, MemoryError)
ROOT = os.path.dirname(os.path.abspath(cfdtools.__file__)) + os.sep


def bounds(tier):
    return RULE + f"; exports and commands: {', '.join(jobs(tier))}"


def jobs(tier):
    """name: (function of the mesh, name of its mesh, kind of file, is a command)"""
    out = {}
    for w, (fn, _, kind) in c42.EXPORTS.items():
        if not c42.NEEDS[w]:
            out[w] = (fn, None, kind, w.startswith(("cfd", "vtkpack")))
            continue
        for name in c37.sources(tier):
            if w == "v4s" and "fields" not in name or name == "many fields":
                continue
            if tier == "quick" and w in ("v2>", "v3<"):  # the byte order changes nothing here
                continue
            out[f"{w} {name}"] = (fn, name, kind, False)
    fields = ["in/fields.ic3", "--outpath", "out", "--check", "--info", "--remove-cell-data", "none"]
    out["cfdwrite_ic3v3 of fields"] = (lambda mesh: c42.command(cli.cfdwrite_ic3v3, *fields), None, "v3", True)
    out["cfdwrite_ic3v2 of fields"] = (lambda mesh: c42.command(cli.cfdwrite_ic3v2, *fields, "--scale", "2", "1", "1"), None, "v2", True)
    out["cfdwrite_vtk of fields"] = (lambda mesh: c42.command(cli.cfdwrite_vtk, "a.msh", "--extrude", "2", "--outpath", "out", "--info"), None, "vt", True)
    out["cfdwritecube elsewhere"] = (lambda mesh: c42.command(cli.cfdwritecube, "q.ic3", "--nx", "1", "--ny", "1", "--nz", "1", "--outpath", "out"), None, "v2", True)
    for n in ("gmsh to V2", "gmsh to V3", "gmsh to vtk", "cgns to V3", "ic3 to V2", "info gmsh", "info cgns", "info vtk", "brief", "read V4", "read cgns", "read gmsh", "read ic3"):
        if tier != "quick" or n not in ("gmsh to vtk", "read cgns", "read gmsh"):
            out[n] = (lambda mesh, n=n: c41.JOBS[n](), None, "v2" if n[-3:] in (" V2", " V3") else "vt", " to " in n or "info" in n or n == "brief")
    return out


def cases(tier, seed):
    parts = 8
    return [(n, k, parts) for n in jobs(tier) for k in range(parts)]


class Lines:
    """counts the lines executed in the package, with the way they are reached (the calls within the package); raises at one of them"""

    def __init__(self, at=None, exc=None):
        self.seen, self.paths, self.n, self.at, self.exc = [], [], 0, at, exc

    def count(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at + 1:
                raise self.exc("injected")
        return self.count

    def top(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(ROOT):
            return None
        if self.at is not None:
            return self.count
        path, f = [], frame.f_back
        while f is not None:
            if f.f_code.co_filename.startswith(ROOT):
                path.append((f.f_code.co_name, f.f_lineno))
            f = f.f_back
        path, name = hash(tuple(path)), frame.f_code.co_filename[len(ROOT):]

        def record(frame, event, arg):
            if event == "line":
                self.seen.append((name, frame.f_lineno))
                self.paths.append(path)
            return record

        return record

    def run(self, fn, *a):
        sys.settrace(self.top)
        try:
            return fn(*a)
        finally:
            sys.settrace(None)


def setup():
    t = c41.template()
    d = os.path.join(A.scratch(), f"stop{os.getpid()}")
    os.chdir(t)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(t, d)
    os.chdir(d)
    os.mkdir("out")
    open("in/fields.ic3", "wb").write(I.emit(c12.model(3, 3, "<")))
    return d


def execute(job, name, tier, lines):
    """(exception or None, result) of the job"""
    mesh = c37.sources(tier)[name]() if name else None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return None, repr(lines.run(job, mesh) if lines else job(mesh))
        except BaseException as e:  # noqa: B902
            return f"{type(e).__name__}: {e}", getattr(e, "code", None)


def points(seen, paths, tier):
    """[(execution, exceptions)]"""
    lines, ways = collections.defaultdict(list), collections.defaultdict(list)
    for k, (line, path) in enumerate(zip(seen, paths)):
        lines[line].append(k)
        ways[line, path].append(k)
    keep = collections.defaultdict(set)
    for ks in lines.values():
        for k in (ks[0], ks[-1]):
            keep[k].add(KeyboardInterrupt)
    for ks in ways.values():
        keep[ks[0]].add(MemoryError)
        if tier != "quick":
            for k in ks[::64] + [ks[-1]]:
                keep[k].update(FAULTS)
    return [(k, [e for e in FAULTS if e in keep[k]]) for k in sorted(keep)]


def run(case, ctx):
    logging.disable(logging.CRITICAL)
    here = os.getcwd()
    try:
        explore(case, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(os.path.join(A.scratch(), f"stop{os.getpid()}"), ignore_errors=True)


def baseline(w, tier):
    fn, name, kind, cmd = jobs(tier)[w]
    lines = Lines()
    before = c42.snapshot()
    exc, res = execute(fn, name, tier, lines)
    if exc:
        return exc, None, (None, None), None
    full = {n: c42.dump(n) for n in c42.snapshot() if n not in before}
    return None, res, (lines.seen, points(lines.seen, lines.paths, tier)), full


def control():
    """what another command gives"""
    os.makedirs("ctl")
    shutil.copy("b.msh", "ctl/b.msh")
    os.chdir("ctl")
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = cli.cfdwrite_ic3v2(["b.msh", "--extrude", "2"])
        return str(r), {n: open(n, "rb").read() for n in os.listdir(".")}
    finally:
        os.chdir("..")
        shutil.rmtree("ctl")


def accepted(kind, new, full):
    """a reader of the package which takes what is left"""
    if kind == "v4":
        names = [n for n in ("./a.h5", "./b.h5") if n in full]
        if all(n in new and c42.safe_dump(n) == full[n] for n in names):
            return None
        try:
            r = ic3.readerV4.reader(*names)
            r.read_data()
            r.export_mesh()
            return "the reader"
        except (Exception, SystemExit):
            return None
    for n in new:
        if kind in ("v2", "v3") and c42.safe_dump(n) != full.get(n):
            for by in c42.accepted("", [n], kind)[:1]:
                return by
    return None


def faulted(w, tier, at, exc, want, full, ctl):
    """[(what is wrong, kind)] and what happened"""
    fn, name, kind, cmd = jobs(tier)[w]
    bad = []
    before = c42.snapshot()
    lines = Lines(at, exc)
    err, res = execute(fn, name, tier, lines)
    if lines.n <= at:
        return [("the line is not reached again", "order")], None
    now = c42.snapshot()
    lost = [f for f, v in before.items() if now.get(f) != v]
    if lost:
        bad.append((f"earlier files changed: {lost}", "earlier"))
    new = sorted(f for f in now if f not in before)
    if err is None or err.startswith("SystemExit") and not res:
        got = {n: c42.safe_dump(n) for n in new}
        if err is None and res != want or got != full:
            bad.append((f"no error although the result is not the right one: {res} instead of {want}, files {new}", "silent"))
        how = "harmless"
    else:
        how = "reported"
        by = accepted(kind, new, full)
        if by:
            bad.append((f"{by} accepts what is left: {[(f, len(now[f][0])) for f in new]}", "left"))
    err2, res2 = execute(fn, name, tier, None)
    end = c42.snapshot()
    again = [f for f in end if f not in now or now[f] != end[f]]
    if err2:
        bad.append((f"the same again in the same process is refused: {err2}", "again"))
    elif sorted(c42.strip(c42.dump(f), f, again) for f in again) != sorted(c42.strip(full[f], f, full) for f in full) or not full and res2 != want:
        bad.append((f"the same again in the same process gives another result: {res2}, files {again}", "again"))
    try:
        if control() != ctl:
            bad.append(("another command gives another file afterwards", "after"))
    except BaseException as e:  # noqa: B902
        bad.append((f"another command fails afterwards: {type(e).__name__}: {e}", "after"))
    return bad, (how, bool(new))


def explore(case, ctx):
    w, part, parts = case
    d = setup()
    exc, want, seen, full = child(baseline, w, ctx.tier)
    if exc:
        return ctx.fail(f"{w}: refused without any fault: {exc}", f"refused:{w}")
    setup()
    ctl = child(control)
    seen, at = seen
    for k, faults in at[part::parts]:
        for e in faults:
            d = setup()
            bad, how = child(faulted, w, ctx.tier, k, e, want, full, ctl)
            ctx.count("evaluations")
            ctx.state(w, seen[k], k, e.__name__)
            ctx.outcome(w, how)
            for msg, sig in bad:
                ctx.fail(f"{w}, {e.__name__} before line {seen[k][1]} of {seen[k][0]} (line {k} executed): {msg}", f"{sig}:{w}:{seen[k][0]}")
    if part == 0:
        ctx.sample({"export": w, "lines executed": len(seen), "distinct lines": len(set(seen)), "fault points": sum(len(f) for _, f in at)})


CASE_TIMEOUT = 800
