"""C37 the disk fills up after every number of bytes of an IC3 export: reported, never taken for a complete file, and the export can be repeated."""
import contextlib
import io
import logging
import os
import resource
import shutil
import signal
import subprocess
import sys

from .. import adapter as A
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import child
from . import c12

import cfdtools._cli as cli  # noqa: E402
import cfdtools.ic3 as ic3  # noqa: E402
import cfdtools.ic3.readerV4  # noqa: E402
import cfdtools.ic3.writerV4  # noqa: E402

PROP, LEVEL = "C37", "fault_enumeration"
ASSUMPTIONS = ["a full disk is modelled by the limit of the system on the size of the files of a process (RLIMIT_FSIZE): bytes up to the limit are written, the next write fails",
               "the file left behind need not be removed, as long as the readers refuse it"]
RULE = ("every number of bytes 0..size-1 (V4 in the quick tier and for the further meshes: every multiple of 8) after which each generated export runs out of space is one fault point; distinct = distinct (export, bytes); exports: library V2/V3 in both byte orders, "
        "V4 mesh, V4 mesh and solution, commands cfdwrite_ic3v2, cfdwrite_ic3v3, cfdwritecube")
EXPORTS = ["v2<", "v2>", "v3<", "v3>", "v4", "v4s", "cmd2", "cmd3", "cube"]


def bounds(tier):
    return RULE + f"; meshes with and without fields (one with a solution larger than the mesh), marked or not ({len(sources(tier))}); each failed export is followed by a reading of what is left and by an export of the same mesh with space"


def with_fields(i):
    m = c12.model(i, 3, "<")
    n = m["ncv"]
    m["data"] = [("cell", k, 1, c12.values(n, "d", s, 0, j)) for j, (k, s) in enumerate([("RHO", ()), ("RHOU", (3,)), ("RHOE", ()), ("P_AVG", ())])]
    return m


def many():
    """a mesh of one cell with so many fields that the V4 solution is larger than the V4 mesh"""
    m = c12.model(1, 3, "<")
    n = m["ncv"]
    m["data"] = [("cell", f"{k}_AVG", 1, c12.values(n, "d", (), 0, j)) for j, k in enumerate("P T U V W Q R S A B C D E F G H I J K L M N".split() + [f"X{i}" for i in range(40)])]
    return m


def bare(i):
    return A.make_mesh(S.blocks_of(c12.MESHES[i][0]), c12.MESHES[i][1])


def sources(tier):
    out = {"many fields": lambda: U.read(I.emit(many())), "fields": lambda: U.read(I.emit(with_fields(3))), "unmarked": lambda: bare(1 if tier != "quick" else 3)}
    if tier != "quick":
        out.update({f"fields {i}": lambda i=i: U.read(I.emit(with_fields(i))) for i in (0, 1, 2)})
        out.update({f"bare {i}": lambda i=i: bare(i) for i in (0, 2)})
    return out


def outputs(what):
    return ["a.h5", "b.h5"] if what == "v4s" else ["a.h5"] if what == "v4" else ["a.ic3"]


def export(what, mesh):
    """writes the files of outputs(what) in the current folder"""
    if what[:2] in ("v2", "v3"):
        {"2": ic3.writerV2, "3": ic3.writerV3}[what[1]].writer(mesh, {"<": "little", ">": "big"}[what[2]]).write_data("a.ic3")
    elif what == "v4":
        ic3.writerV4.writer(mesh).write_data("a.h5")
    elif what == "v4s":
        ic3.writerV4.writer(mesh).write_data("a.h5", "b.h5")
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            if what == "cube":
                cli.cfdwritecube(["a.ic3", "--nx", "1", "--ny", "1", "--nz", "2"])
            else:
                getattr(cli, f"cfdwrite_ic3v{what[3]}")(["in/a.ic3"])


def read(what):
    """the ways to read what is there, as thunks"""
    if what[:2] == "v4":
        def r4():
            r = ic3.readerV4.reader(*outputs(what))
            r.read_data()
            return r.export_mesh()
        return [("reading", r4)]

    def rd(**kw):
        r = ic3.reader_legacy.reader("a.ic3", **kw)
        r.read_data()
        return r.export_mesh()
    return [("reading", rd), ("reading with checks", lambda: rd(cIntegrity=True)), ("listing", lambda: ic3.binreader("a.ic3").read_headers())]


def content(what):
    out = []
    for n in outputs(what):
        if n.endswith(".h5"):
            from .c15 import h5_dump
            out.append(h5_dump(n))
        else:
            out.append(open(n, "rb").read())
    return out


def prepare(what, name, tier):
    if what.startswith("cmd"):
        os.mkdir("in")
        export("v3<", sources(tier)[name]())
        shutil.move("a.ic3", "in/a.ic3")


def cases(tier, seed):
    logging.disable(logging.CRITICAL)
    try:
        return _cases(tier)
    finally:
        logging.disable(logging.NOTSET)


def _cases(tier):
    out = [("shell", w) for w in ("cmd2", "cmd3", "cube")]
    for w in EXPORTS:
        for name in sources(tier):
            if w == "cube" and name != "fields" or w == "v4s" and "fields" not in name or name == "many fields" and w != "v4s" or w[:3] == "cmd" and tier == "quick" and name != "fields":
                continue
            with scratch():
                prepare(w, name, tier)
                child(export, w, sources(tier)[name]())
                size = max(os.path.getsize(n) for n in outputs(w))
                start = os.path.getsize("a.h5") // 8 * 8 if name == "many fields" else 0  # the sizes before that are explored with the other meshes
            if w[:2] == "v4":
                every = 1 if tier != "quick" and name in ("fields", "unmarked") else 8
                out += [(w, name, k, min(k + 60 * every, size), size, every) for k in range(start, size, 60 * every)]
            else:
                out += [(w, name, k, min(k + 250, size), size, 1) for k in range(0, size, 250)]
    return out


@contextlib.contextmanager
def scratch():
    d = os.path.join(A.scratch(), f"full{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    here = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def full_after(n):
    """no file of this process can exceed n bytes"""
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def reported(fn, *a):
    try:
        fn(*a)
    except (Exception, SystemExit) as e:
        return type(e).__name__
    return None


def one(what, name, tier, n, want, h5):
    """[problems] of an export that runs out of space after n bytes"""
    bad = []
    mesh = sources(tier)[name]()
    with full_after(n):
        err = reported(export, what, mesh)
    if err is None:
        bad.append("the export reports no error")
    left = [(k, os.path.getsize(k)) for k in outputs(what) if os.path.exists(k)]
    if any(s > n for _, s in left):
        bad.append(f"the limit is not effective: {left}")
    if not h5:
        bad += after(what)
        bad += again(what, mesh, want)
    return bad


def after(what):
    return [f"{way} accepts what is left: {[(k, os.path.getsize(k)) for k in outputs(what)]}" for way, fn in read(what) if reported(fn) is None]


def again(what, mesh, want):
    for k in outputs(what):
        if os.path.exists(k):
            os.unlink(k)
    err = reported(export, what, mesh)
    return [f"the export is refused once there is space ({err})"] if err else [] if content(what) == want else ["the file exported once there is space differs"]


def batch(what, name, tier, points):
    """HDF5 keeps the files it could not complete open: each one has its own folder, and what is left is read by the parent"""
    base, out = os.getcwd(), {}
    for n in points:
        os.makedirs(f"{base}/{n}")
        os.chdir(f"{base}/{n}")
        out[n] = one(what, name, tier, n, None, True)
        mesh = sources(tier)[name]()
        os.makedirs("again")
        with full_after(n):
            reported(export, what, mesh)
        os.chdir("again")
        out[n] += again(what, mesh, WANT[0])
    return out


WANT = [None]


def run(case, ctx):
    if case[0] == "shell":
        return shell(case, ctx)
    what, name, lo, hi, size, every = case
    points = range(lo, hi, every)
    h5 = what[:2] == "v4"
    with scratch():
        prepare(what, name, ctx.tier)
        mesh = sources(ctx.tier)[name]()
        if h5:
            os.mkdir("ref")
            os.chdir("ref")
        export(what, mesh)
        want = WANT[0] = content(what)
        if h5:
            os.chdir("..")
            res = child(batch, what, name, ctx.tier, points)
            for n in res:
                os.chdir(str(n))
                res[n] += after(what)
                os.chdir("..")
        else:
            res = {}
            for n in points:
                for k in outputs(what):
                    if os.path.exists(k):
                        os.unlink(k)
                res[n] = one(what, name, ctx.tier, n, want, False)
        for n, bad in res.items():
            ctx.count("evaluations")
            ctx.state(what, name, n)
            for b in bad[:2]:
                ctx.fail(f"{what} of {name}, disk full after {n} of {size} bytes: {b}", f"full:{what}")
        ctx.outcome(what, name, not any(res.values()))
    ctx.sample({"export": what, "mesh": name, "size": size, "bytes": [lo, hi - 1]})


def shell(case, ctx):
    """the status of the commands run from a shell"""
    what = case[1]
    with scratch():
        prepare(what, "fields", ctx.tier)
        call = {"cmd2": "cfdwrite_ic3v2", "cmd3": "cfdwrite_ic3v3", "cube": "cfdwritecube"}[what]
        args = ["x", "a.ic3", "--nx", "1", "--ny", "1", "--nz", "2"] if what == "cube" else ["x", "in/a.ic3"]
        for n in (None, 0, 1, 100, 1000, 2000):
            for k in os.listdir("."):
                if k.endswith(".ic3"):
                    os.unlink(k)
            src = (f"import sys, resource\nimport cfdtools._cli as c\n" + (f"resource.setrlimit(resource.RLIMIT_FSIZE, ({n}, {n}))\n" if n is not None else "")
                   + f"sys.argv = {args}\nsys.exit(c.{call}())")
            r = subprocess.run([sys.executable, "-c", src], capture_output=True, timeout=200)
            ctx.count("evaluations")
            ctx.state(case, n)
            if (r.returncode != 0) != (n is not None):
                ctx.fail(f"{call}, disk full after {n} bytes: status {r.returncode}", f"shell:{what}")
            if n is None and reported(read(what)[0][1]):
                ctx.fail(f"{call}: the file is refused", f"shell:{what}")
