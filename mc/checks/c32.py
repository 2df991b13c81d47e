"""C32 tags of HDF5 files over all histories of openings, writings and closings of one file."""
import logging
import os

import h5py
import numpy as np

import cfdtools
import cfdtools.hdf5 as hdf5

from .. import adapter as A
from ..core import Violation, bfs, require
from .c31 import Rec

PROP, LEVEL = "C32", "model_checking"
ASSUMPTIONS = ["a file with a type but no version (older files) has version 0", "mode 'a' is not exercised (documented but refused)"]
TYPES = ("external", "dataset", "datalist", "probes", "cfdmesh")
DEPTH = {"quick": 5, "thorough": 7}


def bounds(tier):
    return (f"all histories to depth {DEPTH[tier]} of open (modes r r+ w w- x and unknown ones, all types, unknown/missing type, missing/0/3 version, same or "
            "new file object), write mesh, information, close, and outside creation of untagged or partly tagged files; states merged on file "
            "content, object state and last tags returned")


def cases(tier, seed):
    return [(t, start, same) for t in TYPES for start in ("absent", "untagged", "typed") for same in (0, 1)]


def menu(t):
    ev = [("open", m, None, None) for m in ("r", "r+", "zz", "")]
    for m in ("w", "w-", "x"):
        ev += [("open", m, t, 3), ("open", m, t, 0), ("open", m, t, None), ("open", m, "nosuch", 1), ("open", m, None, 1)]
    ev += [("open", "w", TYPES[(TYPES.index(t) + 1) % 5], 7)]
    return ev


class Sys:
    def __init__(self, path, start, same):
        self.path, self.same = path, same
        self.obj = None
        self.mode = None  # None: closed
        self.info = None  # (type, version, cfdtools version) that the open file must report
        self.file = None  # None or dict(tags=..., mesh=bool)
        if os.path.exists(path):
            os.unlink(path)
        if start != "absent":
            outside(self, start)

    def close(self):
        if self.mode:
            self.obj.close()


def outside(s, what):
    tags = {} if what == "untagged" else {"cfd_datatype": "probes", "cfdtools_version": "0.1"}
    with h5py.File(s.path, "w") as f:
        f.attrs.update(tags)
        f["x"] = [1, 2]
    s.file = {"tags": tags, "mesh": False, "x": True}


def step(s, ev):
    op = ev[0]
    if op == "open":
        _, mode, typ, ver = ev
        if s.obj is None or not s.same:
            s.obj = hdf5.h5File(s.path)
        if mode in ("w", "w-", "x"):
            ok = typ in TYPES and ver is not None and (mode == "w" or s.file is None)
        else:
            ok = mode in ("r", "r+") and s.file is not None
        try:
            s.obj.open(mode=mode, **({} if typ is None else {"datatype": typ}), **({} if ver is None else {"version": ver}))
            got = True
        except (Exception, SystemExit):
            got = False
        if got != ok:
            raise Violation(f"opening with mode {mode!r}, type {typ}, version {ver} {'accepted' if got else 'refused'} (file: {s.file})")
        if ok:
            s.mode = mode
            if mode in ("w", "w-", "x"):
                s.file = {"tags": {"cfd_datatype": typ, "data_version": ver, "cfdtools_version": cfdtools.__version__}, "mesh": False, "x": False}
                s.info = None
            else:
                t = s.file["tags"]
                s.info = (t.get("cfd_datatype"), t.get("data_version", 0 if "cfd_datatype" in t else None), t.get("cfdtools_version"))
    elif op == "mesh":
        s.obj.write_unsmesh({"tri3": np.array([[0, 1, 2]])}, np.eye(3))
        s.file = dict(s.file, mesh=True)
    elif op == "close":
        s.obj.close()
        s.mode = None
        s.info = None
    elif op == "delete":
        os.unlink(s.path)
        s.file = None
    else:
        outside(s, op)


def events(t):
    def f(s):
        if s.mode is None:
            return menu(t) + [("untagged",), ("typed",)] + ([("delete",)] if s.file is not None else [])
        return [("close",)] + ([("mesh",)] if s.mode != "r" and not s.file["mesh"] else [])

    return f


def check(s, hist):
    if s.mode is None:
        require(os.path.exists(s.path) == (s.file is not None), f"file {'created' if s.file is None else 'missing'}")
        if s.file is not None:
            with h5py.File(s.path, "r+") as f:
                tags = {k: v for k, v in f.attrs.items()}
                require(tags == s.file["tags"], f"tags {tags} instead of {s.file['tags']}")
                require(("mesh" in f, "x" in f) == (s.file["mesh"], s.file["x"]), f"content {list(f)}")
                if s.file["mesh"]:
                    require(f["mesh"].attrs["meshtype"] == "unsmesh" and f["mesh/nodes"][()].tolist() == np.eye(3).tolist()
                            and list(f["mesh/cells"]) == ["tri3"] and f["mesh/cells/tri3"][()].tolist() == [[0, 1, 2]], "mesh group")
        return
    if s.info is not None:
        require(s.obj.datatype == s.info[0], f"type {s.obj.datatype} returned, file has {s.info[0]}")
    logging.disable(logging.NOTSET)
    log = logging.getLogger("cfdtools")
    rec, old, lev = Rec(), log.handlers[:], log.level
    log.handlers[:], log.propagate = [rec], False
    log.setLevel(logging.INFO)
    try:
        s.obj.printinfo()
    finally:
        log.handlers[:], log.propagate = old, True
        log.setLevel(lev)
        logging.disable(logging.CRITICAL)
    if s.info is not None:
        txt = [m.split(":", 1) for m in rec.msgs]
        for v in s.info:
            require(not v or any(x[-1].strip() == str(v) for x in txt), f"{v} not printed: {rec.msgs}")
        require(s.info[0] or not any(x[-1].strip() in TYPES for x in txt), f"type printed for an untagged file: {rec.msgs}")


def run(case, ctx):
    t, start, same = case
    path = os.path.join(A.scratch(), f"h{os.getpid()}.h5")
    last = [None]

    def init():
        if last[0] is not None:
            last[0].close()
        last[0] = Sys(path, start, same)
        return last[0]

    canon = lambda s: (repr(s.file), s.mode, s.info, s.obj is None, s.obj.datatype if s.obj is not None and same else None)
    try:
        n = bfs(ctx, init, events(t), step, canon, check, DEPTH[ctx.tier], case)
    finally:
        last[0].close()
        if os.path.exists(path):
            os.unlink(path)
    ctx.count("traces_validated_against_impl", n)
    ctx.sample({"type": t, "start": start, "states": n})
