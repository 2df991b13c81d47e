"""C42 an export killed before any of its file operations, or within a write: earlier files intact, what is left refused or complete, the same export run again complete."""
import contextlib
import io
import logging
import os
import shutil
import xml.etree.ElementTree as ET

import cfdtools._cli as cli
import cfdtools.hdf5 as hdf5
import cfdtools.ic3 as ic3
import cfdtools.vtk as vtk

from .. import adapter as A
from .. import fsops
from .. import ic3gen as G
from .. import ic3ref as I
from .. import meshspace as S
from .. import vtkgen as V
from . import c37, c41
from .c15 import h5_dump

PROP, LEVEL = "C42", "fault_enumeration"
ASSUMPTIONS = ["the process is killed, the system goes on: what was handed to the system is in the file", "a write of an IC3 or text file can stop after any number of bytes; one of HDF5, which "
               "rewrites its tables in place and cannot tell, only at multiples of 4096 bytes", "what is left of a .vtu file is not judged: the VTK library reports nothing about a truncated file"]
RULE = ("every file operation (look, open, write, truncation, close) of each export is one fault point, and every length of each write (quick: multiples of 16, thorough: of 2; HDF5: multiples of 4096; VTK: none); "
        "distinct = distinct (export, mesh, operation, bytes)")
STEP = {"quick": 16, "thorough": 2}


def bounds(tier):
    return RULE + f"; exports: {', '.join(EXPORTS)}; meshes: {', '.join(c37.sources(tier))}; commands with and without an earlier file of the output name"


def command(fn, *argv):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(list(argv))


def pack():
    s = vtk.vtkList(["s0.vtu", "s1.vtu"])
    s.read()
    return s


def vmesh():
    m = vtk.vtkMesh()
    m.read("s0.vtu")
    return m


# name: (function of the mesh, name of the first output, kind of file)
EXPORTS = {w: (lambda mesh, w=w: c37.export(w, mesh), c37.outputs(w)[0], w[:2]) for w in ("v2<", "v2>", "v3<", "v3>", "v4", "v4s")}
EXPORTS.update({
    "cfdwrite_ic3v2": (lambda mesh: command(cli.cfdwrite_ic3v2, "in/a.ic3"), "a.ic3", "v2"),
    "cfdwrite_ic3v3": (lambda mesh: command(cli.cfdwrite_ic3v3, "in/a.ic3"), "a.ic3", "v3"),
    "cfdwritecube": (lambda mesh: command(cli.cfdwritecube, "a.ic3", "--nx", "2", "--ny", "1", "--nz", "1"), "a.ic3", "v2"),
    "cfdwrite_vtk": (lambda mesh: command(cli.cfdwrite_vtk, "a.msh", "--extrude", "1"), "a.vtu", "vt"),
    "vtkpack": (lambda mesh: command(cli.vtkpack, "s0.vtu", "s1.vtu"), "dumped.h5", "h5"),
    "vtkList.dumphdf": (lambda mesh: pack().dumphdf("p.h5", xdmf=True), "p.h5", "h5"),
    "vtkList.dumphdf compressed": (lambda mesh: pack().dumphdf("p.h5", compression="gzip"), "p.h5", "h5"),
    "vtkMesh.dumphdf": (lambda mesh: vmesh().dumphdf("m.h5"), "m.h5", "h5"),
})
SAFE = [w for w in EXPORTS if w[:2] not in ("v2", "v3", "v4")]  # exports which look for a free name
NEEDS = {w: w[:2] in ("v2", "v3", "v4") for w in EXPORTS}


def cases(tier, seed):
    fsops.ensure()
    out = []
    for w in EXPORTS:
        src = [n for n in c37.sources(tier) if not (w == "v4s" and "fields" not in n)] if NEEDS[w] else [None]
        for name in src:
            for old in (False, True) if w in SAFE else (False,):
                parts = 6 if EXPORTS[w][2] in ("v2", "v3") else 3
                out += [(w, name, old, k, parts) for k in range(parts)]
    return out


def setup(w, old):
    """the folder before the export"""
    d = os.path.join(A.scratch(), f"kill{os.getpid()}")
    t = c41.template()
    os.chdir(t)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(t, d)
    os.chdir(d)
    if old:
        for n in (EXPORTS[w][1], os.path.splitext(EXPORTS[w][1])[0] + ".xmf"):
            open(n, "wb").write(b"earlier")
    return d


def snapshot():
    out = {}
    for base, _, files in os.walk("."):
        for f in files:
            p = os.path.join(base, f)
            st = os.stat(p)
            out[p] = (open(p, "rb").read(), st.st_mtime_ns, st.st_ino)
    return out


def dump(p):
    return h5_dump(p) if p.endswith(".h5") else open(p, "rb").read()


def accepted(w, new, kind):
    """[(reader, file)] which take the new files for exports"""
    out = []

    def attempt(what, fn):
        try:
            fn()
        except (Exception, SystemExit):
            return
        out.append(what)

    for n in new:
        if n.endswith(".xmf"):
            attempt("an XML reader", lambda: ET.parse(n))
        elif kind in ("v2", "v3"):
            def rd(**kw):
                r = ic3.reader_legacy.reader(n, **kw)
                r.read_data()
                return r.export_mesh()
            attempt("the reader", rd)
            attempt("the reader (checks)", lambda: rd(cIntegrity=True))
            attempt("the listing", lambda: ic3.binreader(n).read_headers())
        elif kind == "h5":
            def rh():
                f = hdf5.h5File(n)
                f.open()
                try:
                    assert f.datatype
                    h5_dump(n)  # all of its content can be read
                finally:
                    f.close()
            attempt("h5File", rh)
    return out


def read_v4(w):
    r = ic3.readerV4.reader(*c37.outputs(w))
    r.read_data()
    return r.export_mesh()


def run(case, ctx):
    logging.disable(logging.CRITICAL)
    here = os.getcwd()
    try:
        explore(case, ctx)
    finally:
        os.chdir(here)
        shutil.rmtree(os.path.join(A.scratch(), f"kill{os.getpid()}"), ignore_errors=True)


def explore(case, ctx):
    w, name, old, part, parts = case
    fn, _, kind = EXPORTS[w]
    mesh = c37.sources(ctx.tier)[name]() if name else None
    d = setup(w, old)
    before = snapshot()
    p = fsops.Proc(lambda: fn(mesh), d)
    if not p.finish() or not p.result[0]:
        return ctx.fail(f"{w} of {name}: refused: {p.result}", f"refused:{w}")
    ops = list(p.log)
    full = {n: dump(n) for n in snapshot() if n not in before}
    points = []
    for k, op in enumerate(ops):
        points.append((k, None))
        if op[0] == "write":
            step = {"h5": 4096, "v4": 4096, "vt": 1 << 30}.get(kind, 16 if op[1].endswith(".xmf") else STEP[ctx.tier])
            points += [(k, n) for n in range(step, op[2], step)]
    for k, n in points[part::parts]:
        d = setup(w, old)
        before = snapshot()
        p = fsops.Proc(lambda: fn(mesh), d)
        while p.pending and len(p.log) < k:
            p.go()
        p.kill(n)
        what = f"{w} of {name or 'the folder'}{' next to an earlier file' if old else ''}, killed {f'before operation {k}' if n is None else f'after {n} bytes of operation {k}'} ({' '.join(map(str, ops[k]))})"
        ctx.count("evaluations")
        ctx.state(w, name, old, k, n)
        if not p.killed:
            ctx.fail(f"{what}: the operation is not reached again", f"order:{w}")
            continue
        now = snapshot()
        lost = [f for f, v in before.items() if now.get(f) != v]
        if lost:
            ctx.fail(f"{what}: earlier files changed: {lost}", f"earlier:{w}")
        left = sorted(f for f in now if f not in before)
        complete = all(f in left and safe_dump(f) == full[f] for f in full)
        if kind == "v4":
            try:
                read_v4(w)
                if not complete and not all(f in left and safe_dump(f) == full[f] for f in full):
                    ctx.fail(f"{what}: the reader accepts what is left: {[(f, len(now[f][0])) for f in left]}", f"left:{w}")
            except (Exception, SystemExit):
                pass
        else:
            for f in left:
                if safe_dump(f) != full.get(f):
                    for by in accepted(w, [f], kind)[:1]:
                        ctx.fail(f"{what}: {by} accepts what is left: {f}, {len(now[f][0])} bytes", f"left:{w}")
        # the same export once more
        held = snapshot()
        p = fsops.Proc(lambda: fn(mesh), d)
        p.finish()
        if not p.result or not p.result[0]:
            ctx.fail(f"{what}: the export run again is refused: {p.result}", f"again:{w}")
            continue
        end = snapshot()
        new = [f for f in end if f not in held or held[f] != end[f]]
        if w in SAFE and any(f in held for f in new):
            ctx.fail(f"{what}: the export run again overwrites {[f for f in new if f in held]}", f"again:{w}")
        got, want = sorted(strip(dump(f), f, new) for f in new), sorted(strip(full[f], f, full) for f in full)
        if got != want:
            ctx.fail(f"{what}: the export run again gives other files: {new}", f"again:{w}")
        ctx.outcome(w, complete, bool(left))
    if part == 0:
        ctx.sample({"export": w, "mesh": name, "earlier file": old, "operations": len(ops), "fault points": len(points)})


def strip(data, f, files):
    """the index of a pack names its data file"""
    if f.endswith(".xmf"):
        for h in files:
            if h.endswith(".h5"):
                data = data.replace(os.path.basename(h).encode(), b"DATA")
    return repr(data)


def safe_dump(f):
    try:
        return dump(f)
    except (OSError, RuntimeError, KeyError):
        return None
