"""C21 series of VTK files: every cell order of every file, and every single defect, against physical cells."""
import itertools
import os

import numpy as np

import cfdtools.vtk as vtk

from .. import adapter as A
from .. import meshspace as S
from .. import vtkgen as V
from ..core import require

PROP, LEVEL = "C21", "model_checking"
ASSUMPTIONS = ["cells are matched by their centres, as documented; grids have cells with distinct centres",
               "node renumbering inside a file is free (only centres are compared)"]
GRIDS = {"row3": S.hexgrid(3, 1, 1), "quad4": S.grid2d(2, 2, ("quad4",)), "mixed": S.grid2d(2, 2, ("quad4", "tri3", "quad4")), "mixed3": S.mixedgrid(("hexa8", "prism6")),
         "tet": S.hexgrid(1, 1, 1, "tetra4"), "row2": S.hexgrid(2, 1, 1), "one": S.hexgrid(1, 1, 1), "square9": S.grid2d(3, 3, ("quad4",))}


def bounds(tier):
    return ("all cell orders of the 2nd file (up to 720), all pairs of orders of the 2nd and 3rd files (<=4 cells), all orders of the first file (<=4 cells), over grids "
            f"{sorted(GRIDS)}; fields of 5 shapes, all filter subsets, times present/absent/0; every single-cell displacement above/below tolerance, cell removal, "
            "addition and duplication; the order check on the same files for cells and nodes")


def perms(n, tier):
    if n <= (5 if tier == "quick" else 6):
        return list(itertools.permutations(range(n)))
    out = [list(range(n))]
    for i in range(n):  # all moves of one cell and all transpositions
        for j in range(n):
            p = list(range(n))
            p.insert(j, p.pop(i))
            out.append(p)
            q = list(range(n))
            q[i], q[j] = q[j], q[i]
            out.append(q)
    return sorted(set(map(tuple, out)))


def cases(tier, seed):
    out = []
    for g, (cells, x) in GRIDS.items():
        P = perms(len(cells), tier)
        for i in range(0, len(P), 12):
            out.append(("perm", g, P[i:i + 12]))
        if len(cells) <= 4:
            out += [("first", g, p) for p in P]
        out.append(("bad", g, 0))
        out.append(("filter", g, 0))
        out.append(("times", g, 0))
    return out


FIELDS = (("q", "s"), ("U", "v"), ("n", "i"), ("T", "t"), ("z", "w"))


def write(name, cells, xyz, perm, step, time=None, nperm=None, fields=FIELDS, mod=None):
    g = V.grid(cells, xyz, perm, nperm) if mod is None else mod
    if mod is None:
        for k, (f, kind) in enumerate(fields):
            g.cell_data[f] = V.field(kind, step, k, len(cells))[list(perm)]
    if time is not None:
        g.field_data["TimeValue"] = np.array([time])
    g.point_data["p"] = np.arange(g.n_points) * 1.0
    p = os.path.join(A.scratch(), f"s{os.getpid()}-{name}.vtu")
    g.save(p)
    return p


def judge(l, cells, first, steps, times, names):
    d = l._data._datalist
    require(len(d) == len(steps), f"{len(d)} data sets for {len(steps)} files")
    for s, (dic, step, t) in enumerate(zip(d, steps, times)):
        require(sorted(k for k in dic if k != "time") == sorted(names), f"file {s}: fields {sorted(dic)}")
        require(("time" in dic) == (t is not None) and (t is None or float(np.asarray(dic["time"]).ravel()[0]) == t), f"file {s}: time {dic.get('time')} instead of {t}")
        for k, (f, kind) in enumerate(FIELDS):
            if f not in names:
                continue
            want = V.field(kind, step, k, len(cells))[list(first)]
            got = np.asarray(dic[f])
            require(got.shape == want.shape and got.dtype == want.dtype and np.array_equal(got, want), f"file {s}: field {f}: {got.tolist()[:6]} instead of {want.tolist()[:6]}")


def series(files, **kw):
    l = vtk.vtkList(files, **kw)
    require(l.nfile == len(files) and l.allexist(), "files")
    return l


def order(files, pos, want):
    try:
        got = vtk.vtkList(files).check_order(pos)
    except Exception:
        got = False
    require(bool(got) == want, f"order check of {pos}: {got} instead of {want}")


def run(case, ctx):
    kind, g, arg = case
    cells, xyz = GRIDS[g]
    n = len(cells)
    ident = tuple(range(n))
    files = []

    def W(*a, **k):
        files.append(write(len(files), *a, **k))
        return files[-1]

    try:
        if kind in ("perm", "first"):
            first = ident if kind == "perm" else arg
            f0 = W(cells, xyz, first, 0)
            for p in (arg if kind == "perm" else list(itertools.permutations(ident))):
                nperm = list(range(len(xyz)))[::-1] if sum(p[:1]) % 2 else None
                f1 = W(cells, xyz, p, 1, nperm=nperm)
                order([f0, f1], "cellcenter", tuple(p) == tuple(first))
                order([f0, f1], "node", nperm is None)
                third = list(itertools.permutations(ident)) if n <= 3 and kind == "perm" else [tuple(reversed(p)), p]
                for q in third:
                    f2 = W(cells, xyz, q, 2)
                    l = series([f0, f1, f2, f0], verbose=True)
                    l.read()
                    judge(l, cells, first, (0, 1, 2, 0), (None,) * 4, [f for f, _ in FIELDS])
                    l.read()
                    judge(l, cells, first, (0, 1, 2, 0), (None,) * 4, [f for f, _ in FIELDS])
                    ctx.state(g, first, tuple(p), tuple(q))
                    ctx.count("transitions", 8)
                    ctx.count("traces_validated_against_impl")
                    os.unlink(files.pop())
                os.unlink(files.pop())
            ctx.outcome(g, kind)
            ctx.sample({"grid": g, "orders": repr(arg)[:200]})
        elif kind == "filter":
            rev = ident[::-1]
            fs = [W(cells, xyz, ident, 0), W(cells, xyz, rev, 1)]
            names = [f for f, _ in FIELDS]
            for r in range(0, 6):
                for sub in itertools.permutations(names, r) if r < 3 else itertools.combinations(names, r):
                    sel = list(sub)
                    l = series(fs)
                    l.read(filterdata=sel or None)
                    require(sel == list(sub), "the caller's selection changed")
                    judge(l, cells, ident, (0, 1), (None, None), sel or names)
                    ctx.state(g, "filter", sub)
                    ctx.count("transitions", 2)
                    ctx.count("traces_validated_against_impl")
        elif kind == "times":
            for ts in itertools.product((None, 0.0, 1.5, -2.0), repeat=3):
                fs = [W(cells, xyz, ident if k != 1 else ident[::-1], k, time=t) for k, t in enumerate(ts)]
                l = series(fs)
                l.read()
                judge(l, cells, ident, (0, 1, 2), ts, [f for f, _ in FIELDS])
                ctx.state(g, "times", ts)
                ctx.count("transitions", 3)
                ctx.count("traces_validated_against_impl")
        else:
            bad(g, cells, xyz, W, ctx)
    finally:
        for f in files:
            if os.path.exists(f):
                os.unlink(f)


def refused(fs, what, **kw):
    try:
        series(fs).read(**kw)
    except Exception:
        return
    require(False, f"{what} accepted")


def bad(g, cells, xyz, W, ctx):
    n = len(cells)
    ident = tuple(range(n))
    f0 = W(cells, xyz, ident, 0)

    def variant(cl, x, perm):
        m = V.grid(cl, x, perm)
        for k, (f, kind) in enumerate(FIELDS):
            m.cell_data[f] = V.field(kind, 1, k, len(cl))[list(perm)]
        return W(None, None, None, 1, mod=m)

    for perm in (ident, ident[::-1], ident[1:] + ident[:1]):
        for c in range(n):
            for d, tol in ((1e-3, 1e-10), (1e-7, 1e-10), (0.4, 1e-2), (1e-6, 1e-3), (1e-3, 1e-2)):
                for ax in range(3):
                    x = [list(map(float, q)) for q in xyz] + [list(map(float, xyz[i])) for i in cells[c][1]]
                    for q in x[len(xyz):]:
                        q[ax] += d
                    cl = list(cells)
                    cl[c] = (cells[c][0], tuple(range(len(xyz), len(x))))
                    f1 = variant(cl, x, perm)
                    if d > tol:
                        refused([f0, f1], f"{g}: cell {c} displaced by {d} with tolerance {tol}", tol=tol)
                        refused([f0, f0, f1], f"{g}: cell {c} displaced by {d} in the third file", tol=tol)
                    else:
                        l = series([f0, f1])
                        l.read(tol=tol)
                        judge(l, cells, ident, (0, 1), (None, None), [f for f, _ in FIELDS])
                    ctx.state(g, "shift", perm, c, d, tol, ax)
                    ctx.count("transitions", 2)
                    ctx.count("traces_validated_against_impl")
            # a cell is missing, or listed twice
            rest = tuple(i for i in perm if i != c)
            if rest:
                refused([f0, variant(cells, xyz, rest)], f"{g}: a grid without cell {c}")
                refused([variant(cells, xyz, rest), f0], f"{g}: a grid with the additional cell {c}")
                order([f0, variant(cells, xyz, rest)], "cellcenter", False)
            for e in range(n):
                if e != c:
                    refused([f0, variant(cells, xyz, tuple(e if i == c else i for i in perm))], f"{g}: cell {e} listed twice instead of {c}")
                    ctx.state(g, "twice", perm, c, e)
            refused([f0, variant(cells, xyz, perm + (c,))], f"{g}: cell {c} listed twice")
            ctx.count("transitions", 4)
            ctx.count("traces_validated_against_impl")
    ctx.outcome(g, "bad")
    ctx.sample({"grid": g, "defects": "all single-cell displacements, removals, duplications"})
