"""C13 every proper prefix of an IC3 file (V2, V3, V4 mesh, V4 solution) is rejected when read or listed."""
import contextlib
import io
import logging
import os

from .. import adapter as A
from .. import ic3gen as G
from .. import ic3ref as I
from .. import ic3util as U
from .. import meshspace as S
from ..core import require
from . import c12

import cfdtools.ic3 as ic3  # noqa: E402
import cfdtools.ic3.readerV4  # noqa: E402
import cfdtools.ic3.writerV4  # noqa: E402
import cfdtools._cli as cli  # noqa: E402

PROP, LEVEL = "C13", "fault_enumeration"
ASSUMPTIONS = ["the stop is modelled as a truncation at a byte boundary; any exception (or exit) of the reader is an error report"]
RULE = ("every byte length 0..size-1 of every generated file is one fault point; distinct = distinct (file, length); files cover versions 2, 3 and 4 "
        "(mesh and solution), both byte orders, with and without fields, with integrity checks on and off")
FILES, LEFT = [], []


def bounds(tier):
    return RULE + f"; {len(FILES)} files, all written by the package except the ones of an independent writer; left out: {LEFT or 'none'}"


def v4(i):
    """(mesh bytes, solution bytes) written by the package"""
    m = c12.model(i, 3, "<")
    n = m["ncv"]
    m["data"] = [("cell", k, 1, c12.values(n, "d", s, 0, j)) for j, (k, s) in enumerate([("RHO", ()), ("RHOU", (3,)), ("RHOE", ()), ("P_AVG", ())])]
    mesh = U.read(I.emit(m))
    a, b = U.tmp(".h5"), U.tmp(".h5")
    ic3.writerV4.writer(mesh).write_data(a, b)
    try:
        a_, b_ = open(a, "rb").read(), open(b, "rb").read()
        return [(f"V4 mesh {i}", 4, a_), (f"V4 solution {i}", 5, (a_, b_))]
    finally:
        os.unlink(a), os.unlink(b)


def generate(fn):
    """files written by the package: what it cannot write (another property) is left out and said in the evidence"""
    logging.disable(logging.CRITICAL)
    try:
        FILES.extend(fn())
    except Exception as e:
        LEFT.append(f"{type(e).__name__}: {e}"[:80])
    finally:
        logging.disable(logging.NOTSET)


def cases(tier, seed):
    FILES.clear()
    LEFT.clear()
    for i in (0, 3) if tier == "quick" else range(len(c12.MESHES)):
        for v in (2, 3):
            for e in "<>":
                FILES.append((f"ref V{v}{e} mesh {i}", v, I.emit(c12.model(i, v, e))))
                m = c12.model(i, v, e)
                m["data"] = []
                FILES.append((f"no field V{v}{e} mesh {i}", v, I.emit(m)))
            generate(lambda: [(f"package V{v} mesh {i}", v, U.write(A.make_mesh(S.blocks_of(c12.MESHES[i][0]), c12.MESHES[i][1]), v))])
        generate(lambda: v4(i))
    out = []
    for f, (_, v, d) in enumerate(FILES):
        n = len(d[1] if v == 5 else d)
        step = 500 if v < 4 else 4000
        out += [(f, k, min(k + step, n)) for k in range(0, n, step)] + [(f, n, n + 1)]
    return out


def attempt(fn):
    """None when fn reports an error"""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return [fn()]
    except (Exception, SystemExit):
        return None


def readers(v, d, k):
    """[(what, thunk)] of the ways to read the file cut at k bytes"""
    p = U.tmp(".ic3" if v < 4 else ".h5")
    with open(p, "wb") as f:
        f.write(d[:k])
    if v < 4:
        def rd(**kw):
            r = ic3.reader_legacy.reader(p, **kw)
            r.read_data()
            return r.export_mesh()
        return p, [("reading", rd), ("reading with checks", lambda: rd(cIntegrity=True)), ("listing", lambda: ic3.binreader(p).read_headers())]

    def r4(*args):
        r = ic3.readerV4.reader(*args)
        r.read_data()
        return r.export_mesh()
    return p, [("reading", lambda: r4(p))]


def run(case, ctx):
    f, lo, hi = case
    name, v, d = FILES[f]
    sol = None
    if v == 5:
        mesh, d = d
        sol = U.tmp(".h5")
        with open(sol, "wb") as g:
            g.write(mesh)
    for k in range(lo, hi):
        full = k == len(d)
        p, ways = readers(v, d, k)
        if v == 5:
            ways = [("reading", lambda: read_sol(sol, p))]
        for what, fn in ways:
            ctx.count("evaluations")
            r = attempt(fn)
            if full:
                if r is None:
                    ctx.fail(f"{name}: the complete file is refused ({what})", "complete")
            elif r is not None:
                ctx.fail(f"{name} cut at {k} of {len(d)} bytes: {what} reports no error", f"V{v}:{what}")
        if v < 4 and (k % 256 in (7, 8, 9) or full):
            conv(p, name, k, full, ctx)
        os.unlink(p)
        ctx.state(f, k)
        ctx.outcome(v, full)
    ctx.sample({"file": name, "size": len(d), "cut at": [lo, hi - 1]})


def read_sol(mesh, sol):
    r = ic3.readerV4.reader(mesh, sol)
    r.read_data()
    return r.export_mesh()


def conv(p, name, k, full, ctx):
    """the converter reports the error and leaves no output"""
    out = os.path.join(A.scratch(), f"out{os.getpid()}")
    os.makedirs(out, exist_ok=True)
    r = attempt(lambda: cli.cfdwrite_ic3v3([p, "--outpath", out]))
    files = os.listdir(out)
    for x in files:
        os.unlink(os.path.join(out, x))
    ctx.count("evaluations")
    if (r is not None) != full or bool(files) != full:
        ctx.fail(f"{name} cut at {k}: conversion {'succeeds' if r else 'fails'} with files {files}", "convert")
