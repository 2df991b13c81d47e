"""Independent writer of unstructured CGNS/HDF5 files from a model (plain h5py).

model = dict(geodim, physdim, zones=[zone]); zone = dict(name, xyz, sections=[(name, etype, [nodes])] in numbering order,
bcs=[dict(name, parent, label, type, family, list=('PointList'|'ElementList', location or None, [1-based numbers]))])"""
import h5py
import numpy as np

CODE = {"node1": 2, "bar2": 3, "tri3": 5, "quad4": 7, "tetra4": 10, "pyra5": 12, "prism6": 14, "hexa8": 17}


def s8(s):
    return np.array([ord(c) for c in s], dtype=np.int8)


def node(parent, name, label, data=None):
    g = parent.create_group(name)
    g.attrs["label"] = np.bytes_(label.encode())
    g.attrs["name"] = np.bytes_(name.encode())
    g.attrs["type"] = np.bytes_(b"MT")
    if data is not None:
        g.create_dataset(" data", data=data)
    return g


def write(path, m, itype=np.int32, ftype=np.float64, flat=False):
    with h5py.File(path, "w", track_order=m.get("track_order", False)) as f:
        f.attrs["label"] = np.bytes_(b"Root Node of HDF5 File")
        f.create_dataset(" format", data=s8("IEEE_LITTLE_32\0"))
        f.create_dataset(" hdf5version", data=s8("HDF5 Version 1.8.17".ljust(32, "\0") + "\0"))
        node(f, "CGNSLibraryVersion", "CGNSLibraryVersion_t", np.array([3.11], np.float32))
        base = node(f, m.get("base", "Base"), "CGNSBase_t", np.array([m["geodim"], m["physdim"]], np.int32))
        for fam in m.get("families", ()):
            node(base, fam, "Family_t")
        for z in m["zones"]:
            ncell = sum(len(r) for _, t, r in z["sections"] if DIM[t] == m["geodim"])
            zn = node(base, z["name"], "Zone_t", np.array([[len(z["xyz"])], [ncell], [0]], itype))
            node(zn, "ZoneType", "ZoneType_t", s8("Unstructured"))
            gc = node(zn, "GridCoordinates", "GridCoordinates_t")
            for i in range(m["physdim"]):
                node(gc, "Coordinate" + "XYZ"[i], "DataArray_t", np.array([p[i] for p in z["xyz"]], ftype))
            k = 1
            for name, t, rows in z["sections"]:
                e = node(zn, name, "Elements_t", np.array([CODE[t], 0], np.int32))
                node(e, "ElementRange", "IndexRange_t", np.array([k, k + len(rows) - 1], itype))
                node(e, "ElementConnectivity", "DataArray_t", np.array(rows, itype).ravel() + 1)
                k += len(rows)
            for b in z["bcs"]:
                par = b.get("parent", "ZoneBC")
                if par not in zn:
                    node(zn, par, {"ZoneBC": "ZoneBC_t"}.get(par, "ZoneGridConnectivity_t"))
                g = node(zn[par], b["name"], b.get("label", "BC_t"), s8(b["type"]))
                kind, loc, lst = b["list"]
                a = np.array(lst, itype)
                node(g, kind, "IndexArray_t", a if flat else a.reshape(-1, 1))
                if loc:
                    node(g, "GridLocation", "GridLocation_t", s8(loc))
                if b.get("family"):
                    node(g, "FamilyName", "FamilyName_t", s8(b["family"]))


DIM = {"node1": 0, "bar2": 1, "tri3": 2, "quad4": 2, "tetra4": 3, "pyra5": 3, "prism6": 3, "hexa8": 3}


def expected(m, zone):
    """coordinates, cells in file order, {mark name: (set of nodes, set of possible BC types)}"""
    z = zone
    cells, num, k = [], {}, 1
    for _, t, rows in z["sections"]:
        for r in rows:
            num[k] = (t, tuple(r))
            if DIM[t] == m["geodim"]:
                cells.append((t, tuple(r)))
            k += 1
    allcells = {k for k, (t, _) in num.items() if DIM[t] == m["geodim"]}
    marks = {}
    for b in z["bcs"]:
        kind, loc, lst = b["list"]
        if kind == "ElementList":
            if set(lst) == allcells:
                continue
            nodes = {x for i in lst for x in num[i][1]}
        elif loc == "FaceCenter":
            nodes = {x for i in lst for x in num[i][1]}
        else:
            nodes = {i - 1 for i in lst}
            if len(nodes) == len(z["xyz"]):
                continue
        name = b.get("family") or b["name"]
        old = marks.get(name, (set(), set()))
        marks[name] = (old[0] | nodes, old[1] | {b["type"]})
    xyz = np.zeros((len(z["xyz"]), 3))
    xyz[:, : m["physdim"]] = np.array(z["xyz"], float)[:, : m["physdim"]]
    return xyz, cells, marks
