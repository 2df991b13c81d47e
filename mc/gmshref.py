"""Independent writer of GMSH ASCII files (formats 2.2 and 4.1) from a model.

model = dict(nodes=[(tag, xyz)] in file order, ents=[(dim, tag, [physical tags])], elems=[(dim, entity tag, etype, (node tags))] in
file order, names=[(dim, tag, name)], plus layout options)."""
TYPE = {"node1": 15, "bar2": 1, "tri3": 2, "quad4": 3, "tetra4": 4, "hexa8": 5, "prism6": 6, "pyra5": 7}
EXTRA = {"comments": ["$Comments", "1 2 3", "$EndComments"], "periodic": ["$Periodic", "0", "$EndPeriodic"],
         "data": ["$NodeData", "1", '"a view"', "1", "0.0", "3", "0", "1", "0", "$EndNodeData"]}


def num(x, style=0):
    return repr(float(x)) if style == 0 else f"{float(x):.17g}"


def names(m):
    if not m["names"]:
        return []
    return ["$PhysicalNames", str(len(m["names"]))] + [f'{d} {t} "{n}"' for d, t, n in m["names"]] + ["$EndPhysicalNames"]


def v2(m, ntags=2, extra=(), start=1, eol="\n", style=0):
    out = ["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]
    out += sum((EXTRA[x] for x in extra if x == "comments"), [])
    out += names(m)
    out += ["$Nodes", str(len(m["nodes"]))] + [f"{t} " + " ".join(num(c, style) for c in p) for t, p in m["nodes"]] + ["$EndNodes"]
    ph = {(d, t): p for d, t, p in m["ents"]}
    rows, k = [], start
    for d, e, t, nodes in m["elems"]:
        for p in ph[d, e] or [0]:
            tags = [p, e] + {2: [], 3: [7], 4: [1, 3]}[ntags]
            rows.append(" ".join(map(str, [k, TYPE[t], len(tags)] + tags + list(nodes))))
            k += 1
    out += ["$Elements", str(len(rows))] + rows + ["$EndElements"]
    out += sum((EXTRA[x] for x in extra if x != "comments"), [])
    return eol.join(out) + eol


def v4(m, nblocks=None, extra=(), parametric=False, entities=True, start=1, eol="\n", style=0, merge=True, reverse=False):
    """nblocks: sizes of the node blocks (sum = number of nodes, 0 allowed); merge: consecutive elements of one entity and type share a block;
    reverse: physical tags of every second entity are negative (entity taken in the opposite direction)"""
    out = ["$MeshFormat", "4.1 0 8", "$EndMeshFormat"]
    out += sum((EXTRA[x] for x in extra if x == "comments"), [])
    out += names(m)
    if entities:
        by = {d: [(t, p) for dd, t, p in m["ents"] if dd == d] for d in range(4)}
        out += ["$Entities", " ".join(str(len(by[d])) for d in range(4))]
        for d in range(4):
            for t, p in by[d]:
                box = ["0.5", "-1", "2e-3"] if d == 0 else ["0", "0", "0", "1.5", "1", "1"]
                bounding = [] if d == 0 else [str(m.get("nbound", 0))] + [str((-1) ** i * (i + 1)) for i in range(m.get("nbound", 0))]
                out.append(" ".join([str(t)] + box + [str(len(p))] + [str(-x if reverse and t % 2 else x) for x in p] + bounding) + " ")
        out.append("$EndEntities")
    n = m["nodes"]
    sizes = nblocks if nblocks is not None else [len(n)]
    assert sum(sizes) == len(n)
    tags = [t for t, _ in n]
    ents = [(d, t) for d, t, _ in m["ents"]]
    out += ["$Nodes", f"{len(sizes)} {len(n)} {min(tags)} {max(tags)}"]
    k = 0
    for i, s in enumerate(sizes):
        d, e = ents[(i * 3 + 1) % len(ents)]
        par = int(parametric and 0 < d < 3 and i % 2 == 0)
        out.append(f"{d} {e} {par} {s}")
        out += [str(t) for t, _ in n[k:k + s]]
        out += [" ".join(num(c, style) for c in p) + (" 0.25" + " 0.5" * (d - 1) if par else "") for _, p in n[k:k + s]]
        k += s
    out.append("$EndNodes")
    blocks = []
    for d, e, t, nodes in m["elems"]:
        if not (merge and blocks and blocks[-1][0] == (d, e, t)):
            blocks.append(((d, e, t), []))
        blocks[-1][1].append(nodes)
    tot = sum(len(b) for _, b in blocks)
    out += ["$Elements", f"{len(blocks)} {tot} {start} {start + tot - 1}"]
    k = start
    for (d, e, t), rows in blocks:
        out.append(f"{d} {e} {TYPE[t]} {len(rows)}")
        for nodes in rows:
            out.append(" ".join(map(str, [k] + list(nodes))) + " ")
            k += 1
    out.append("$EndElements")
    out += sum((EXTRA[x] for x in extra if x != "comments"), [])
    return eol.join(out) + eol


def expected(m):
    """what any reader must find: coordinates, cells of highest dimension, {name: set of node tags} of the boundary groups"""
    dim = max(d for d, *_ in m["elems"])
    ph = {(d, t): p for d, t, p in m["ents"]}
    cells = [(t, nodes) for d, _, t, nodes in m["elems"] if d == dim]
    nm = {(d, t): n for d, t, n in m["names"]}
    marks = {}
    for d, e, _, nodes in m["elems"]:
        if d == dim - 1:
            for p in ph[d, e]:
                if (d, p) in nm:
                    marks.setdefault(nm[d, p], set()).update(nodes)
    return dict(m["nodes"]), cells, marks
