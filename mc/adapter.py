"""The only place where the checks touch the insides of the code under test."""
import os
import sys
import time


class Clock:
    """virtual clock: while active, every clock a timer may use reads `now` (installed before the package is imported)"""

    active, now = False, 0.0
    _real = {n: getattr(time, n) for n in ("perf_counter", "monotonic", "time", "perf_counter_ns", "monotonic_ns", "time_ns")}

    @classmethod
    def install(cls):
        for n, real in cls._real.items():
            ns = n.endswith("_ns")

            def f(_r=real, _ns=ns):
                if not cls.active:
                    return _r()
                return int(cls.now * 10**9) if _ns else cls.now

            setattr(time, n, f)


Clock.install()
import cfdtools.meshbase  # noqa: F401  (first: importing cfdtools.data first is circular at the base commit)
import cfdtools.api as api
import cfdtools.meshbase._connectivity as conn
import cfdtools.meshbase._elements as elem
import cfdtools.meshbase._mesh as mesh_mod
import cfdtools.meshbase.simple as simple
import cfdtools.data as data_mod
import numpy as np

Mesh, submeshmark = mesh_mod.Mesh, mesh_mod.submeshmark
indexlist, elem_connectivity = conn.indexlist, conn.elem_connectivity
_src = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
assert os.path.realpath(cfdtools.__file__).startswith(_src + os.sep), cfdtools.__file__

_pristine = getattr(elem, "elem2faces", None)


def reset_globals():
    """process-wide state of the package back to its state right after import"""
    if _pristine is not None:
        elem.elem2faces = _pristine


def scratch():
    return os.environ.get("MC_SCRATCH", "/tmp")


# ---------------------------------------------------------------------------------------------------- build


def make_conn(blocks):
    """blocks: [(etype, [node tuples], index list or None)] -> elem_connectivity"""
    ec = elem_connectivity()
    for etype, cells, index in blocks:
        ec.add_elems(etype, np.array(cells, dtype=int), None if index is None else indexlist(ilist=list(index)))
    return ec


def make_mesh(blocks, coords, marks=()):
    """marks: [(name, geodim, type, indices)]"""
    ncell = sum(len(b[1]) for b in blocks)
    m = Mesh(ncell=ncell, nnode=len(coords))
    m.set_nodescoord_nd(np.array(coords, dtype=float))
    m.set_cell2node(make_conn(blocks))
    for mk in marks:
        m.add_boco(make_mark(*mk))
    return m


def make_mark(name, geodim, mtype, indices, **props):
    mk = submeshmark(name)
    mk.geodim = geodim
    mk.type = mtype
    for k, v in props.items():
        mk.properties[k] = v
    mk.index = indexlist(ilist=list(indices))
    return mk


# -------------------------------------------------------------------------------------------------- observe


def elems_of(ec):
    """[(index, etype, nodes tuple)] of an elem_connectivity, as numbered by the code"""
    out = []
    for etype, d in ec.items():
        ind = d["index"].list()
        en = np.asarray(d["elem2node"])
        assert len(ind) == en.shape[0], f"{etype}: {len(ind)} indices for {en.shape[0]} elements"
        out += [(int(np.asarray(i).item()), etype, tuple(int(x) for x in row)) for i, row in zip(ind, en.tolist())]
    return out


def face_rows(ec, f2c):
    """{face index: (etype, nodes, (c0, c1))}"""
    rows = {}
    fc = None if f2c is None else f2c.conn
    for i, etype, nodes in elems_of(ec):
        assert i not in rows, f"face index {i} used twice"
        c = tuple(int(x) for x in fc[i]) if fc is not None else None
        rows[i] = (etype, nodes, c)
    n = 0 if fc is None else len(fc)
    assert sorted(rows) == list(range(len(rows))), f"face numbering is not 0..n-1: {sorted(rows)[:20]}"
    assert fc is None or n == len(rows), f"{n} face/cell rows for {len(rows)} faces"
    return rows


def mesh_faces(m, kind):
    d = m._faces[kind]
    return face_rows(d["face2node"], d["face2cell"])


def face_kinds(m):
    return sorted(m._faces)


def all_faces(m):
    """global numbering used by the IC3 formats: mixed as is, or boundary then internal"""
    if "mixed" in m._faces:
        return mesh_faces(m, "mixed")
    b, i = mesh_faces(m, "boundary"), mesh_faces(m, "internal")
    rows = dict(b)
    rows.update({len(b) + k: v for k, v in i.items()})
    return rows


def marks(m):
    """{name: mark}"""
    return dict(m._bocos)


def mark_items(m):
    """{name: (geodim, type, sorted indices)}"""
    return {n: (b.geodim, b.type, sorted(int(np.asarray(i).item()) for i in b.index.list())) for n, b in m._bocos.items()}


def cells(m):
    """{cell index: (etype, nodes)}"""
    rows = elems_of(m._cell2node)
    d = {i: (t, n) for i, t, n in rows}
    assert len(d) == len(rows), "cell index used twice"
    return d


def coords(m):
    return np.array(m.nodescoord(ndarray=True), dtype=float)
