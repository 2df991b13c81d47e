"""Transition systems whose states are conforming meshes.

grow: initial states = one cell; transition = glue a new cell of any type through any of its faces, in any
rotation, onto any boundary face of the mesh.  States are keyed by their exact connectivity with nodes numbered
by first appearance (local node numbers matter to the code, so no further symmetry reduction is sound)."""
from . import refmesh as R

T3 = ("tetra4", "pyra5", "prism6", "hexa8")
T2 = ("tri3", "quad4")


def relabel(cells):
    m, out = {}, []
    for t, n in cells:
        out.append((t, tuple(m.setdefault(x, len(m)) for x in n)))
    return tuple(out)


def boundary(cells):
    _, b = R.extract(dict(enumerate(cells)))
    return sorted((R.norm_rot(f), c) for f, c in b.values())


def successors(cells, types, rots=None):
    """all meshes obtained by gluing one more cell"""
    nn = 1 + max(x for _, n in cells for x in n)
    for f, _ in boundary(cells):
        for t in types:
            for lf in R.FACES[t]:
                if len(lf) != len(f):
                    continue
                for r in range(len(f)) if rots is None else rots:
                    # the new cell sees the face with the opposite orientation
                    g = tuple(reversed(f))
                    g = g[r:] + g[:r]
                    nodes = [None] * R.NNODE[t]
                    for a, b in zip(lf, g):
                        nodes[a] = b
                    k = nn
                    for i in range(len(nodes)):
                        if nodes[i] is None:
                            nodes[i] = k
                            k += 1
                    yield relabel(cells + ((t, tuple(nodes)),))


def grow(ncell, types, rots=None, count=None):
    """all states with exactly ncell cells; returns (states, transitions)"""
    level = {relabel(((t, tuple(range(R.NNODE[t]))),)) for t in types}
    trans = 0
    for k in range(1, ncell):
        nxt = set()
        for s in sorted(level):
            for s2 in successors(s, types, rots if k > 1 else None):
                trans += 1
                nxt.add(s2)
        level = nxt
    return sorted(level), trans


# ---------------------------------------------------------------------------- structured families (closed rings)


def grid_nodes(nx, ny, nz):
    return {(i, j, k): i + (nx + 1) * (j + (ny + 1) * k)
            for k in range(nz + 1) for j in range(ny + 1) for i in range(nx + 1)}


def hexgrid(nx, ny, nz, split="hexa8"):
    """(cells, coords) of a box of unit hexahedra, each one optionally split (conforming)"""
    g = grid_nodes(nx, ny, nz)
    coords = [None] * len(g)
    for (i, j, k), n in g.items():
        coords[n] = (float(i), float(j), float(k))
    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                h = [g[i + a, j + b, k + c] for a, b, c in
                     [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
                if split == "hexa8":
                    cells.append(("hexa8", tuple(h)))
                elif split == "prism6":  # two prisms along z
                    cells.append(("prism6", (h[0], h[1], h[2], h[4], h[5], h[6])))
                    cells.append(("prism6", (h[0], h[2], h[3], h[4], h[6], h[7])))
                elif split == "pyra5":
                    c = len(coords)
                    coords.append((i + 0.5, j + 0.5, k + 0.5))
                    for f in R.FACES["hexa8"]:
                        cells.append(("pyra5", tuple(h[x] for x in reversed(f)) + (c,)))
                elif split == "tetra4":  # Kuhn: conforming across neighbours
                    for p in [(1, 2), (1, 5), (4, 5), (3, 2), (3, 7), (4, 7)]:
                        t = (h[0], h[p[0]], h[p[1]], h[6])
                        if R.volume("tetra4", [coords[x] for x in t]) < 0:
                            t = (t[0], t[2], t[1], t[3])
                        cells.append(("tetra4", t))
                else:
                    raise ValueError(split)
    return tuple(cells), coords


def mixedgrid(kinds):
    """a row of unit boxes along x, box i split as kinds[i] in {hexa8, prism6(along y), pyra5}: quads match"""
    nx = len(kinds)
    g = grid_nodes(nx, 1, 1)
    coords = [None] * len(g)
    for (i, j, k), n in g.items():
        coords[n] = (float(i), float(j), float(k))
    cells = []
    for i, kind in enumerate(kinds):
        h = [g[i + a, b, c] for a, b, c in
             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        if kind == "hexa8":
            cells.append(("hexa8", tuple(h)))
        elif kind == "prism6":
            cells.append(("prism6", (h[0], h[1], h[2], h[4], h[5], h[6])))
            cells.append(("prism6", (h[0], h[2], h[3], h[4], h[6], h[7])))
        else:
            c = len(coords)
            coords.append((i + 0.5, 0.5, 0.5))
            for f in R.FACES["hexa8"]:
                cells.append(("pyra5", tuple(h[x] for x in reversed(f)) + (c,)))
    return tuple(cells), coords


def grid2d(nx, ny, kinds):
    """2-D grid, cell (i,j) is a quad or split into two triangles; returns (cells, coords)"""
    coords = [(float(i), float(j), 0.0) for j in range(ny + 1) for i in range(nx + 1)]
    n = lambda i, j: i + (nx + 1) * j
    cells = []
    for j in range(ny):
        for i in range(nx):
            q = (n(i, j), n(i + 1, j), n(i + 1, j + 1), n(i, j + 1))
            if kinds[(i + nx * j) % len(kinds)] == "quad4":
                cells.append(("quad4", q))
            else:
                cells.append(("tri3", (q[0], q[1], q[2])))
                cells.append(("tri3", (q[0], q[2], q[3])))
    return tuple(cells), coords


def templates():
    out = []
    for n in [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 2, 1), (2, 1, 2), (2, 2, 2), (3, 2, 1)]:
        out.append((f"hexa{n}",) + hexgrid(*n))
    for s in ("prism6", "pyra5", "tetra4"):
        for n in [(1, 1, 1), (2, 1, 1), (1, 1, 2), (2, 2, 1)]:
            out.append((f"{s}{n}",) + hexgrid(*n, split=s))
    for k in [("hexa8", "prism6"), ("hexa8", "pyra5"), ("pyra5", "hexa8", "prism6"), ("prism6", "pyra5"),
              ("hexa8", "pyra5", "hexa8")]:
        out.append((f"mixed{k}",) + mixedgrid(k))
    return out


def blocks_of(cells, order="type", perm=None):
    """group cells in per-type blocks: [(etype, [nodes], [ids])] for add_elems.
    Cell i of `cells` keeps id i (or perm[i])."""
    seen, out = [], {}
    for i, (t, n) in enumerate(cells):
        if t not in out:
            out[t] = ([], [])
            seen.append(t)
        out[t][0].append(n)
        out[t][1].append(i if perm is None else perm[i])
    if order == "rtype":
        seen.reverse()
    return [(t, out[t][0], out[t][1]) for t in seen]


def fake_coords(nn):
    """distinct, generic coordinates when geometry is irrelevant"""
    return [(0.5 * i + 0.25, (i * i % 7) * 0.125, (i * 5 % 11) * 1.0) for i in range(nn)]
