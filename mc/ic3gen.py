"""Reference IC3 model files (mc.ic3ref dictionaries) built from reference meshes: input space of the reader checks."""
import numpy as np

from . import adapter as A
from . import meshspace as S
from . import refmesh as R
from .core import require

KN = {1: "boundary", 2: "perio_cart", 3: "perio_cylx", 4: "perio_cyly", 5: "perio_cylz", 6: "internal"}


# names of zones which could be taken for something else: sections of the format, numbers, paths, patterns, other spellings
NASTY = ["EOF", "FA_ZONE", "NO_FA_CV_NOOFA_COUNTS", "X_NO", "internal", "default", "0", "-1", "nan", "in", "IN", "in-00", "in-01", "in 0", "in  0", "a/b\\c", "%s {} $x", "#wall", "'q\"", "x" * 52, "x" * 51,
         "name", "boundary", "perio_cart"]


def base(cells, xyz, version, endian, rot=0, layout=0, periodic=False):
    """model file of a mesh; `layout` selects the zones, `rot` the face listing, `periodic` pairs boundary faces"""
    cm = dict(enumerate(cells))
    ri, rb = R.extract(cm)
    bk = sorted(rb, key=sorted)
    rows = []
    r = rot % max(1, len(bk))
    bk = bk[r:] + bk[:r]
    for j, k in enumerate(bk):
        f, c = rb[k]
        q = (rot + j) % len(f)
        rows.append((f[q:] + f[:q], [c, -1]))
    nb = len(rows)
    for k in sorted(ri, key=sorted, reverse=bool(rot % 2)):
        (f, c), (g, d) = ri[k]
        if rot % 2:
            f, c, d = g, d, c
        rows.append((f, [c, d]))
    cuts = {0: [nb], 1: [1, nb], 2: [nb // 2, nb], 3: list(range(1, nb + 1)), 4: [nb // 3, 2 * nb // 3, nb]}[layout]
    zones, a = [], 0
    for i, b in enumerate(c for c in cuts if c > 0):
        if b <= a:
            continue
        kind = 1 + (i * (1 + layout)) % 5
        rd = tuple(0.5 * q - i for q in range(16)) if kind > 1 else (0.0,) * 16
        zones.append((("" if i < 5 else str(i)) + ["inlet", "wall 1", "z" * (52 if i < 5 else 40), "o-u_t.3", "perio"][i % 5], kind, a, b - 1, rd))
        a = b
    if layout == 2 and len(zones) == 2:
        zones.reverse()  # zones are not listed in the order of their faces
    zones.append(("default-internal" if rot % 2 else "internal-domain", 6, nb, len(rows) - 1, (0.0,) * 16))
    cv = [tuple(c) for _, c in rows]
    if periodic:  # paired faces of a partitioned/periodic file
        cv = [(c, d) if d >= 0 or i % 2 else (c, -2 - ((i + 1) % nb)) for i, (c, d) in enumerate(cv)]
    n = len(cells)
    return dict(endian=endian, version=version, ncv=n, faces=[tuple(f) for f, _ in rows], cvofa=cv, zones=zones,
                npart=1 + rot % 3, part=[i % (1 + rot % 3) for i in range(n)], xyz=np.array(xyz, dtype="f8"),
                params={"STEP": 7 + rot, "DT": 0.125 + rot, "TIME": 1e-3 * (rot + 1)}, data=[])


def check_read(mesh, m, data=True, where=""):
    """the mesh exported by a reader of the package is the model m"""
    require(mesh.ncell == m["ncv"] and mesh.nnode == len(m["xyz"]), f"{where}{mesh.nnode} nodes {mesh.ncell} cells")
    require(np.asarray(mesh.nodescoord(ndarray=True), "f8").tobytes() == m["xyz"].tobytes(), where + "coordinates differ")
    rows = A.all_faces(mesh)
    require(mesh.nface == len(m["faces"]), f"{where}nface {mesh.nface}")
    got = [(rows[i][1], rows[i][2]) for i in range(len(rows))]
    want = list(zip(m["faces"], m["cvofa"]))
    require(got == want, f"{where}faces differ: {[(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if g != w][:3]} ({len(got)}/{len(want)})")
    check_zones(mesh, m, where)
    pr = mesh._params
    for k, v in m["params"].items():
        require(k.lower() in pr and pr[k.lower()] == v and isinstance(pr[k.lower()], int) == isinstance(v, int), f"{where}parameter {k}={v} read as {pr.get(k.lower())!r}")
    part = mesh._cellprop.get("partition")
    if m.get("part") is not None:
        require(part is not None and part["npart"] == m["npart"] and list(part["icvpart"]) == list(m["part"]), f"{where}partition {part}")
    if data:
        check_data(mesh, m, where)


def check_zones(mesh, m, where=""):
    got = {}
    for name, b in A.marks(mesh).items():
        ind = [int(i) for i in b.index.list()]
        require(b.name == name and b.facebased(), f"{where}mark {name}")
        per = b.properties.get("periodic_transform")
        got[name] = (b.type, ind, tuple(float(x) for x in per) if per is not None else None)
    require(list(got) == [z[0] for z in m["zones"]] or sorted(got) == sorted(z[0] for z in m["zones"]), f"{where}zones {list(got)}")
    for name, kind, a, b, rd in m["zones"]:
        g = got[name]
        require(g[0] == KN[kind] and g[1] == list(range(a, b + 1)), f"{where}zone {name} read as {g[:2]} for {KN[kind]} {a}-{b}")
        require(kind == 6 or (g[2] or (0.0,) * 16) == rd, f"{where}periodic data of {name}: {g[2]}")


def same(x, a):
    x = np.asarray(x)
    return x.shape == a.shape and x.dtype.kind == a.dtype.kind and x.astype(a.dtype).tobytes() == a.tobytes()


def check_data(mesh, m, where="", skip=()):
    for loc, ds in (("node", mesh._nodedata), ("cell", mesh._celldata)):
        want = {n: (a, nd) for l, n, nd, a in m["data"] if l == loc}
        got = dict(ds.items()) if ds else {}
        require(sorted(got) == sorted(want), f"{where}{loc} fields {sorted(got)} instead of {sorted(want)}")
        for n, (a, nd) in want.items():
            require(same(got[n], a), f"{where}{loc} field {n}: {np.asarray(got[n]).dtype}{np.asarray(got[n]).shape} for {a.dtype}{a.shape} or values differ")
            require(loc == "node" or ds.ndof == nd, f"{where}{ds.ndof} degrees of freedom per cell instead of {nd}")
