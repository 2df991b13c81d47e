"""VTK grids written without the package: cells in any order, nodes in any numbering, fields tied to the physical cell."""
import numpy as np
import pyvista as pv

CODE = {"bar2": 3, "tri3": 5, "quad4": 9, "tetra4": 10, "pyra5": 14, "prism6": 13, "hexa8": 12}
WIDTH = {"s": (), "v": (3,), "w": (2,), "i": (), "t": (9,)}


def grid(cells, xyz, perm=None, nperm=None, rot=0, shift=None):
    """cells[perm[0]], cells[perm[1]], ... ; node j of the file is node nperm[j] of the model; shift: {cell: displacement} (nodes of the cell)"""
    xyz = np.array(xyz, float)
    perm = list(range(len(cells))) if perm is None else list(perm)
    nperm = list(range(len(xyz))) if nperm is None else list(nperm)
    inv = {g: j for j, g in enumerate(nperm)}
    flat = []
    for c in perm:
        n = [inv[x] for x in cells[c][1]]
        flat += [len(n)] + n
    return pv.UnstructuredGrid(np.array(flat), np.array([CODE[cells[c][0]] for c in perm], np.uint8), xyz[nperm])


def field(kind, step, k, n):
    """value of field number k at time step `step` on the n physical cells"""
    base = 100.0 * step + 10.0 * k + np.arange(n) + 1 / 3
    if kind == "i":
        return (1000 * step + 7 * k + np.arange(n) * 3).astype(np.int64)
    w = WIDTH[kind]
    return base if not w else base[:, None] * np.array([1.0, -0.5, 0.25, 3, 5, 7, 11, 13, 17])[: w[0]][None, :] + np.arange(w[0])[None, :] * 0.01
