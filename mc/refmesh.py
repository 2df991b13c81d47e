"""Independent reference: element face tables (CGNS/SIDS node order, outward faces), geometry, face extraction.

Nothing here uses the code under test; selftest() justifies the tables by geometry."""
import itertools

FACES = {
    "tetra4": [(0, 2, 1), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
    "pyra5": [(0, 3, 2, 1), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)],
    "prism6": [(0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (0, 2, 1), (3, 4, 5)],
    "hexa8": [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (0, 4, 7, 3), (4, 5, 6, 7)],
    "quad4": [(0, 1), (1, 2), (2, 3), (3, 0)],
    "tri3": [(0, 1), (1, 2), (2, 0)],
}
UNIT = {
    "tetra4": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
    "pyra5": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0.5, 0.5, 1)],
    "prism6": [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
    "hexa8": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
    "quad4": [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)],
    "tri3": [(0, 0, 0), (1, 0, 0), (0, 1, 0)],
}
NNODE = {t: len(v) for t, v in UNIT.items()}
DIM = {"tetra4": 3, "pyra5": 3, "prism6": 3, "hexa8": 3, "quad4": 2, "tri3": 2}
FACETYPE = {2: "bar2", 3: "tri3", 4: "quad4"}


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mean(pts):
    return tuple(sum(p[i] for p in pts) / len(pts) for i in range(3))


def area_vector(pts):
    """vector area of a (planar-ish) polygon"""
    c = mean(pts)
    s = (0.0, 0.0, 0.0)
    for p, q in zip(pts, pts[1:] + pts[:1]):
        v = cross(sub(p, c), sub(q, c))
        s = tuple(a + 0.5 * b for a, b in zip(s, v))
    return s


def volume(etype, pts):
    """by the divergence theorem over the reference faces"""
    v = 0.0
    for f in FACES[etype]:
        fp = [pts[i] for i in f]
        v += dot(mean(fp), area_vector(fp)) / 3.0
    return v


def norm_rot(t):
    """canonical rotation of a cyclic sequence (orientation preserved)"""
    k = t.index(min(t))
    return t[k:] + t[:k]


def cell_faces(etype, nodes):
    """outward faces of a cell as node tuples"""
    return [tuple(nodes[i] for i in f) for f in FACES[etype]]


def extract(cells):
    """cells: {id: (etype, nodes)} -> (internal, boundary)
    boundary: {frozenset(nodes): (outward face, cell)};  internal: {frozenset: [(outward face of c, c), (.., d)]}"""
    seen = {}
    for c, (etype, nodes) in cells.items():
        for f in cell_faces(etype, nodes):
            seen.setdefault(frozenset(f), []).append((f, c))
    internal = {k: v for k, v in seen.items() if len(v) == 2}
    boundary = {k: v[0] for k, v in seen.items() if len(v) == 1}
    assert len(internal) + len(boundary) == len(seen), "model mesh is not conforming"
    return internal, boundary


def selftest():
    n = 0
    for t in ("tetra4", "pyra5", "prism6", "hexa8"):
        pts = UNIT[t]
        c = mean(pts)
        edges = {}
        for f in FACES[t]:
            fp = [pts[i] for i in f]
            assert dot(area_vector(fp), sub(mean(fp), c)) > 1e-9, (t, f)
            for e in zip(f, f[1:] + f[:1]):
                edges[e] = edges.get(e, 0) + 1
            n += 1
        assert all(v == 1 and edges.get((b, a)) == 1 for (a, b), v in edges.items()), t  # closed oriented surface
        assert set(itertools.chain(*FACES[t])) == set(range(NNODE[t]))
        assert volume(t, pts) > 0
    return n
