"""Driving the IC3 writers/readers of the package and comparing with the reference model."""
import os

import numpy as np

from . import adapter as A
from . import ic3ref as I
from . import refmesh as R
from .core import require

import cfdtools.ic3 as _ic3  # noqa: E402

_n = [0]


def tmp(ext=".ic3"):
    _n[0] += 1
    return os.path.join(A.scratch(), f"w{os.getpid()}-{_n[0]}{ext}")


def write(mesh, version, endian="native"):
    """bytes written by the package"""
    w = {2: _ic3.writerV2, 3: _ic3.writerV3}[version].writer(mesh, endian)
    p = tmp()
    try:
        w.write_data(p)
        with open(p, "rb") as f:
            return f.read()
    finally:
        if os.path.exists(p):
            os.unlink(p)


def read(data, **kw):
    """mesh read by the package from these bytes"""
    p = tmp()
    with open(p, "wb") as f:
        f.write(data)
    try:
        r = _ic3.reader_legacy.reader(p, **kw)
        r.read_data()
        return r.export_mesh()
    finally:
        os.unlink(p)


def check_written(m, cells, xyz, zones, version, endian="native", orient=True):
    """m: parsed file; cells: {cell: (etype, nodes)}; zones: ordered {name: (kind name, set of frozenset faces, rdata or None)}
    (marks without face may be left out); faces no mark holds must be in one extra boundary zone"""
    require(m["version"] == version, f"version {m['version']}")
    import sys
    want_e = {"native": "<" if sys.byteorder == "little" else ">", "little": "<", "big": ">"}[endian]
    require(m["endian"] == want_e, f"byte order {m['endian']} for {endian}")
    require(m["ncv"] == len(cells), f"{m['ncv']} cells instead of {len(cells)}")
    require(m["xyz"].tobytes() == np.asarray(xyz, "f8").tobytes(), "coordinates differ")
    ri, rb = R.extract(cells)
    zz = I.check_zones(m)
    seen = set()
    for i, (f, c) in enumerate(zip(m["faces"], m["cvofa"])):
        k = frozenset(f)
        require(k not in seen and len(k) == len(f), f"face {f} twice")
        seen.add(k)
        if c[1] < 0:
            require(k in rb and rb[k][1] == c[0] and c[1] == -1, f"boundary face {f} with cells {c}")
            out = rb[k][0]
        else:
            require(k in ri and {o[1] for o in ri[k]} == set(c), f"internal face {f} with cells {c}")
            out = {o[1]: o[0] for o in ri[k]}[c[0]]
        require(not orient or R.norm_rot(f) == R.norm_rot(out), f"face {f} does not point out of cell {c[0]}")
    require(len(seen) == len(ri) + len(rb), "faces are missing")
    left = set(rb)
    names = [z[0] for z in m["zones"][:-1]]
    want = [n for n, z in zones.items() if z[1]]
    for n in want:
        kind, fs, rdata = zones[n]
        require(n in zz, f"no zone {n} in {names}")
        _, k, a, b, rd = zz[n]
        require({frozenset(f) for f in m["faces"][a:b + 1]} == set(fs), f"zone {n} holds other faces than its mark")
        require(k == I.KIND[kind], f"zone {n} has kind {k} for {kind}")
        rw = tuple([float(x) for x in rdata] + [0.0] * (16 - len(rdata))) if rdata is not None else (0.0,) * 16
        require(rd == rw, f"zone {n} periodic data {rd}")
        left -= set(fs)
    extra = [n for n in names if n not in zones]
    require(len(extra) <= 1 and bool(extra) == bool(left), f"{len(left)} unmarked faces, additional zones {extra}")
    for n in names:
        require(n in extra or n in zones, f"unexpected zone {n}")
    if extra:
        _, k, a, b, rd = zz[extra[0]]
        require({frozenset(f) for f in m["faces"][a:b + 1]} == left and k == 1, f"additional zone {extra}")


def list_sections(data):
    """names of the sections listed by the header reader"""
    import contextlib
    import io
    p = tmp()
    with open(p, "wb") as f:
        f.write(data)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            _ic3.binreader(p).read_headers()
    finally:
        os.unlink(p)
    return [l.split(":", 1)[1].strip() for l in out.getvalue().splitlines() if l.startswith("Name")]
