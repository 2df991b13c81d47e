"""C23: statistics along a direction, for every order of the cells of an extruded grid.

States: every permutation of the cells of small extruded grids (plane shape x number of planes), node numberings,
direction, fields and option combinations; transitions: one averaging each, on the real code, judged by statistics of
the columns computed from the construction of the grid (never from cell centres)."""
import itertools

import numpy as np

from .. import adapter as A
from ..core import require, Violation
from ..vtkgen import grid, field

PROP, LEVEL = "C23", "model_checking"
RULE = "all cell permutations of extruded grids with <=6 cells (structured families beyond), x options x direction x fields"
ASSUMPTIONS = ["planes are exactly extruded, coordinates in double precision", "phases are compared where the magnitude of the mode is not zero"]

BASE2D = {  # 2-D plane: cells (type, nodes), xy
    "q1": ([("quad4", (0, 1, 2, 3))], [(0, 0), (1, 0), (1, 1), (0, 1)]),
    "q2": ([("quad4", (0, 1, 4, 3)), ("quad4", (1, 2, 5, 4))], [(0, 0), (1, 0), (2.5, 0), (0, 1), (1, 1.2), (2.5, 1)]),
    "q3": ([("quad4", (0, 1, 5, 4)), ("quad4", (1, 2, 6, 5)), ("quad4", (2, 3, 7, 6))],
           [(0, 0), (1, 0), (2, 0), (4, 0), (0, 1), (1, 1), (2, 1), (4, 1)]),
    "tq": ([("tri3", (0, 1, 2)), ("quad4", (1, 3, 4, 2))], [(0, 0), (1, 0), (0.5, 1), (2, 0), (2, 1)]),
    "q22": ([("quad4", (0, 1, 4, 3)), ("quad4", (1, 2, 5, 4)), ("quad4", (3, 4, 7, 6)), ("quad4", (4, 5, 8, 7))],
            [(x, y) for y in (0, 1, 2) for x in (0, 1, 2)]),
}
DIRS = {"z": None, "x": lambda p: (p[:, 1:3], p[:, 0]), "y": lambda p: (p[:, [2, 0]], p[:, 1])}
VOL = {"quad4": "hexa8", "tri3": "prism6"}


def extruded(base, nz, direction, z0=0.0, dz=0.5):
    """cells [plane k][column c] (type, nodes), xyz"""
    c2, xy = BASE2D[base]
    n = len(xy)
    xyz = []
    for k in range(nz + 1):
        for x, y in xy:
            z = z0 + dz * k
            # cyclic rotation keeps the orientation
            xyz.append({"z": (x, y, z), "x": (z, x, y), "y": (y, z, x)}[direction])
    cells = [[(VOL[t], tuple(k * n + i for i in nodes) + tuple((k + 1) * n + i for i in nodes)) for t, nodes in c2] for k in range(nz)]
    return cells, xyz


def opts_menu(nz, full):
    out = [{}, {"rms": True}, {"snapshot": True}, {"nmode": nz - 1}, {"nmode": nz - 1, "phase": True, "rms": True, "snapshot": True}]
    if full:
        out = [dict(rms=r, snapshot=s, nmode=m, phase=p) for r in (False, True) for s in (False, True) for p in (False, True)
               for m in range(nz)]
    return out


def sel_menu(nz):
    m = nz - 1
    items = ["avg", "rms", "snapshot", "phase", ["no_avg", "rms"], ["no_avg", {"nmode": m}], [{"nmode": 1}, "phase"],
             ["no_avg", "snapshot", "rms", {"nmode": m}, "phase"], {"nmode": m, "_list": 1}]
    return [[{"nmode": m}] if isinstance(i, dict) else i for i in items]


def cases(tier, seed):
    deep = tier == "thorough"
    shapes = [("q1", 2), ("q1", 3), ("q2", 2), ("tq", 2), ("q1", 4), ("q2", 3), ("q3", 2), ("tq", 3)]
    if deep:
        shapes += [("q1", 5), ("q1", 6), ("q1", 7)]
    for b, nz in shapes:
        n = len(BASE2D[b][0]) * nz
        for first in range(n):
            yield ("perm", b, nz, first, deep)
    for b, nz in [("q1", 4), ("q2", 3), ("tq", 3), ("q3", 4), ("q22", 3), ("q22", 5)] + ([("q22", 8), ("q3", 9)] if deep else []):
        for d in DIRS:
            yield ("opts", b, nz, d, deep)
            yield ("select", b, nz, d, deep)
    for b, nz in [("q1", 3), ("q2", 2), ("q2", 3), ("tq", 3), ("q3", 3)]:
        yield ("refuse", b, nz)
    yield ("extract", deep)


def expect(name, cols, opt):
    """cols: array (nplane, ncol, ...) -> {output name: (values, kind)}"""
    out = {}
    o = {"avg": True, "rms": False, "phase": False, "nmode": 0, "snapshot": False, **opt}
    nz = cols.shape[0]
    v = cols.astype(float)
    if o["snapshot"]:
        out[name] = v[0]
    mean = sum(v[k] for k in range(nz)) / nz
    if o["avg"]:
        out[f"{name}_avg"] = mean
    if o["rms"]:
        out[f"{name}_rms"] = np.sqrt(sum((v[k] - mean) ** 2 for k in range(nz)) / nz)
    for i in range(1, o["nmode"] + 1):
        c = sum(v[k] * np.exp(-2j * np.pi * i * k / nz) for k in range(nz)) / np.sqrt(nz)
        out[f"{name}_k{i}"] = np.abs(c)
        if o["phase"]:
            out[f"{name}_k{i}_phase"] = c
    return out


def sel_options(sel, general):
    o = {"avg": True, "rms": False, "phase": False, "nmode": 0, "snapshot": False, **general}
    for s in [sel] if isinstance(sel, str) else sel:
        if isinstance(s, dict):
            o.update(s)
        elif s == "no_avg":
            o["avg"] = False
        else:
            o[s] = True
    return o


KINDS = "svi"


def colvals(kind, nz, ncol, k):
    """physical values: (nplane, ncol, ...), every cell different and no column periodic"""
    f = field(kind, 0, k, nz * ncol)
    order = [(7 * i + 3 * (i // max(ncol, 1)) ** 2) % (nz * ncol) for i in range(nz * ncol)]
    f = f[order] if len(set(order)) == nz * ncol else f
    if kind != "i":
        f = f * (1 + 0.1 * (np.arange(nz * ncol) // ncol % 2)).reshape((-1,) + (1,) * (f.ndim - 1))
    return f.reshape((nz, ncol) + f.shape[1:])


def build(base, nz, direction, perm, nperm=None, kinds=KINDS, mutate=None, **kw):
    cells, xyz = extruded(base, nz, direction, **kw)
    flat = [c for pl in cells for c in pl]
    if mutate:
        flat, xyz = mutate(flat, [list(p) for p in xyz])
    g = grid(flat, xyz, perm, nperm)
    vals = {}
    ncol = len(cells[0])
    for k, kind in enumerate(kinds):
        v = colvals(kind, nz, ncol, k)
        vals[f"F{kind}"] = v
        g.cell_data[f"F{kind}"] = v.reshape((nz * ncol,) + v.shape[2:])[list(perm)]
    return g, vals, cells, xyz


def mesh_of(g):
    from cfdtools.vtk import vtkMesh

    return vtkMesh(pvmesh=g)


def check_slice(out, cells, xyz, vals, opts):
    """out: returned grid; opts: {field: options}"""
    g = out.pyvista_grid
    got, pts = [], np.asarray(g.points)
    flat, off = np.asarray(g.cells), 0
    for t in g.celltypes:
        n = int(flat[off])
        got.append((int(t), tuple(tuple(np.round(pts[i], 9).tolist()) for i in flat[off + 1:off + 1 + n])))
        off += 1 + n
    from ..vtkgen import CODE

    x = np.round(np.array(xyz, float), 9)
    ref = {(CODE[t], tuple(tuple(x[i].tolist()) for i in nodes)): c for c, (t, nodes) in enumerate(cells[0])}
    require(sorted(got) == sorted(ref), "the slice is not the first plane of cells", "slice")
    used = {p for c in ref for p in c[1]}
    require(len(pts) == len(used), "the slice does not hold exactly the nodes of its cells", "slice-nodes")
    col = [ref[c] for c in got]
    want = {}
    for name, o in opts.items():
        want.update(expect(name, vals[name], o))
    require(sorted(g.cell_data.keys()) == sorted(want), f"outputs {sorted(g.cell_data.keys())} instead of {sorted(want)}", "names")
    for n, w in want.items():
        w = w[col]
        d = np.asarray(g.cell_data[n])
        require(d.shape == w.shape, f"{n}: shape {d.shape} instead of {w.shape}", "shape")
        if n.endswith("_phase"):
            ok = np.abs(w) > 1e-6
            dz = np.exp(1j * d) - np.where(ok, w / np.where(ok, np.abs(w), 1), np.exp(1j * d))
            require(np.all(np.abs(dz) < 1e-7), f"{n}: wrong phase", "phase")
        else:
            require(np.allclose(d, w, rtol=1e-9, atol=1e-8), f"{n}: {d.tolist()} instead of {w.tolist()}", n.split("_", 1)[-1])


def one(ctx, base, nz, direction, perm, nperm, kw, select=None, kinds=KINDS):
    g, vals, cells, xyz = build(base, nz, direction, perm, nperm, kinds)
    before = {k: np.array(v) for k, v in g.cell_data.items()}
    pb, cb = np.array(g.points), np.array(g.cells)
    m = mesh_of(g)
    args = dict(kw)
    if DIRS[direction] is not None:
        args["splitcoords"] = DIRS[direction]
    opts = {n: dict(kw) for n in vals}
    if select is not None:
        args["select"] = select
        opts = {n: sel_options(s, kw) for n, s in select.items()}
    keep = repr(select)
    out = m.vtk_zconvolution(**args)
    check_slice(out, cells, xyz, vals, opts)
    require(repr(select) == keep, "the selection of the caller was modified", "select-mutated")
    g2 = m.pyvista_grid
    require(sorted(g2.cell_data.keys()) == sorted(before) and all(np.array_equal(g2.cell_data[k], before[k]) for k in before)
            and np.array_equal(g2.points, pb) and np.array_equal(g2.cells, cb), "the averaged mesh was modified", "source-mutated")
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl")
    ctx.state(base, nz, direction, tuple(perm), tuple(nperm or ()), sorted(kw.items()), keep)
    ctx.outcome("averaged", base, nz, direction, sorted(kw.items()), keep)


def structured_perms(n, ncol):
    idt = list(range(n))
    yield idt
    yield idt[::-1]
    for r in (1, ncol, n // 2):
        yield idt[r:] + idt[:r]
    yield [k * ncol + c for c in range(ncol) for k in range(n // ncol)]  # column by column
    yield sorted(idt, key=lambda i: (i * 7919) % 31)


def run(case, ctx):
    kind = case[0]
    if kind == "perm":
        _, base, nz, first, deep = case
        n = len(BASE2D[base][0]) * nz
        nn = len(BASE2D[base][1]) * (nz + 1)
        rest = [i for i in range(n) if i != first]
        nperms = [None, list(range(nn))[::-1]]
        menu = opts_menu(nz, False)
        for j, p in enumerate(itertools.permutations(rest)):
            perm = (first,) + p
            todo = menu if n <= 4 else [menu[-1], menu[j % 4]]
            for i, kw in enumerate(todo):
                ctx.attempt(one, ctx, base, nz, "z", perm, nperms[(i + j) % 2], kw, sig=f"perm-{base}-{nz}", what=f"{base}x{nz} perm {perm} {kw}")
            if len(ctx.fails) > 5:
                return
        ctx.sample(f"all orders of the cells of {base} x {nz} planes starting with cell {first}")
    elif kind in ("opts", "select"):
        _, base, nz, d, deep = case
        ncol = len(BASE2D[base][0])
        nn = len(BASE2D[base][1]) * (nz + 1)
        nps = [None, list(range(nn))[::-1], sorted(range(nn), key=lambda i: (i * 5) % (nn + 1))]
        for perm in structured_perms(ncol * nz, ncol):
            for np_ in nps if deep else nps[1:]:
                if kind == "opts":
                    for kw in opts_menu(nz, True):
                        ctx.attempt(one, ctx, base, nz, d, perm, np_, kw, sig="opts", what=f"{case} {perm} {kw}")
                else:
                    sm = sel_menu(nz)
                    # a single field, all pairs of fields with different selections, and general options below a selection
                    for f in KINDS:
                        for s in sm:
                            ctx.attempt(one, ctx, base, nz, d, perm, np_, {}, {f"F{f}": s}, sig="select", what=f"{case} {perm} {f}:{s}")
                    for i, s in enumerate(sm):
                        for j, t in enumerate(sm):
                            ctx.attempt(one, ctx, base, nz, d, perm, np_, {}, {"Fs": s, "Fv": t}, sig="select2", what=f"{case} {perm} {s},{t}")
                    for kw in ({"rms": True}, {"nmode": 1}, {"snapshot": True, "phase": True}):
                        for s in sm:
                            ctx.attempt(one, ctx, base, nz, d, perm, np_, kw, {"Fv": s}, sig="select-gen", what=f"{case} {kw} {s}")
                    g, *_ = build(base, nz, d, perm, np_)
                    ctx.attempt(refused, ctx, g, {"select": {"nope": "avg"}}, d, f"{case} unknown name", sig="unknown")
                    ctx.attempt(refused, ctx, g, {"select": {"Fs": "avg", "nope": ["rms"]}}, d, f"{case} unknown name", sig="unknown")
                if len(ctx.fails) > 5:
                    return
    elif kind == "refuse":
        _, base, nz = case
        ncol, n2 = len(BASE2D[base][0]), len(BASE2D[base][1])
        n = ncol * nz
        perms = list(structured_perms(n, ncol))
        # one plane only
        g, *_ = build(base, 1, "z", list(range(ncol)))
        ctx.attempt(refused, ctx, g, {}, "z", "single plane", sig="single")
        for perm in perms:
            # one cell missing (the grid without cell j): planes of different sizes
            for j in range(n):
                if ncol == 1 and j in (0, n - 1):
                    continue  # still evenly spaced planes
                keep = [i for i in perm if i != j]
                cells, xyz = extruded(base, nz, "z")
                flat = [c for pl in cells for c in pl]
                if ncol == 1 and nz == 3:
                    continue  # two planes, whatever the gap, are evenly spaced
                g = grid(flat, xyz, keep)
                g.cell_data["Fs"] = np.arange(n - 1.0)
                ctx.attempt(refused, ctx, g, {}, "z", f"{base}x{nz} without cell {j}", sig="missing")
            # a plane of cells shifted sideways (detached cells), by 10x the tolerance or by a large value
            for k in range(nz):
                for c in range(ncol):
                    for dx in (1e-3, 0.25):
                        cells, xyz = extruded(base, nz, "z")
                        flat, pts = detach([x for pl in cells for x in pl], [list(p) for p in xyz], k * ncol + c, (dx, 0, 0))
                        g = grid(flat, pts, perm)
                        g.cell_data["Fs"] = np.arange(float(n))
                        ctx.attempt(refused, ctx, g, {}, "z", f"{base}x{nz} cell {k},{c} shifted by {dx}", sig="shifted")
            # uneven spacing
            if nz > 2:
                for k in (0, nz - 1):
                    for dz in (0.01, 0.2):
                        cells, xyz = extruded(base, nz, "z")
                        pts = [[x, y, z + (dz if z > 0.5 * k + 0.25 else 0)] for x, y, z in xyz]
                        g = grid([x for pl in cells for x in pl], pts, perm)
                        g.cell_data["Fs"] = np.arange(float(n))
                        ctx.attempt(refused, ctx, g, {}, "z", f"{base}x{nz} plane {k} thicker by {dz}", sig="uneven")
            # one column doubled in a plane instead of another one
            if ncol > 1:
                for k in range(nz):
                    for c, e in itertools.permutations(range(ncol), 2):
                        cells, xyz = extruded(base, nz, "z")
                        flat = [x for pl in cells for x in pl]
                        flat[k * ncol + c] = flat[k * ncol + e]
                        g = grid(flat, xyz, perm)
                        g.cell_data["Fs"] = np.arange(float(n))
                        ctx.attempt(refused, ctx, g, {}, "z", f"{base}x{nz} plane {k}: column {c} replaced by a copy of {e} (order {perm})", sig="doubled")
            if len(ctx.fails) > 5:
                return
    else:
        # slices of any selection of cells, in the requested order
        deep = case[1]
        for base, nz in (("tq", 2), ("q2", 1), ("q1", 3)) + ((("tq", 3),) if deep else ()):
            cells, xyz = extruded(base, nz, "z")
            flat = [c for pl in cells for c in pl]
            n = len(flat)
            for perm in structured_perms(n, len(cells[0])):
                for r in range(1, n + 1):
                    for sel in itertools.permutations(range(n), r):
                        ctx.attempt(extract, ctx, flat, xyz, perm, sel, sig="extract", what=f"{base}x{nz} {perm} {sel}")


def detach(flat, pts, cell, d):
    t, nodes = flat[cell]
    new = []
    for i in nodes:
        new.append(len(pts))
        pts.append([a + b for a, b in zip(pts[i], d)])
    flat = list(flat)
    flat[cell] = (t, tuple(new))
    return flat, pts


def refused(ctx, g, kw, d, what):
    if DIRS[d] is not None:
        kw = {**kw, "splitcoords": DIRS[d]}
    ctx.count("transitions")
    ctx.state("refuse", what, np.asarray(g.cells).tolist())
    try:
        mesh_of(g).vtk_zconvolution(**kw)
    except Exception:
        return
    raise Violation(f"accepted: {what}", None)


def extract(ctx, flat, xyz, perm, sel):
    from ..vtkgen import CODE

    g = grid(flat, xyz, perm)
    out = mesh_of(g).vtk_extract_cells(list(sel)).pyvista_grid
    pts, fl, off = np.asarray(out.points), np.asarray(out.cells), 0
    x = np.array(xyz, float)
    require(out.n_cells == len(sel), "wrong number of cells", "extract")
    for j, s in enumerate(sel):
        t, nodes = flat[perm[s]]
        n = int(fl[off])
        require(int(out.celltypes[j]) == CODE[t] and np.array_equal(pts[fl[off + 1:off + 1 + n]], x[list(nodes)]), f"cell {j} of the selection is not cell {s}", "extract")
        off += 1 + n
    require(len(pts) == len({i for s in sel for i in flat[perm[s]][1]}), "nodes which belong to no selected cell (or doubled)", "extract-nodes")
    ctx.count("transitions")
    ctx.count("traces_validated_against_impl")
    ctx.state("extract", perm, sel, len(flat))
