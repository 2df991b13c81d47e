"""C04 face connectivity <-> flat (CSR) form, merging, numbering check."""
import itertools

import numpy as np

from .. import adapter as A
from ..core import require

PROP, LEVEL = "C04", "model_checking"
ASSUMPTIONS = ["faces of 2, 3 or 4 nodes (the sizes the package knows)"]
FT = {2: "bar2", 3: "tri3", 4: "quad4"}
SIZES = (2, 3, 4)


def bounds(tier):
    n = 9 if tier == "thorough" else 7
    return (f"all sequences of face sizes up to length {n} through unpack/pack; all numberings (permutations) of up to {6 if tier == 'thorough' else 5} faces "
            "x size patterns x block splits through pack/unpack; all merges of 1..3 sets of <=3 faces of 2 sizes, with their numberings")


def cases(tier, seed):
    out = [("seq", n, first) for n in range(1, (9 if tier == "thorough" else 7) + 1) for first in (SIZES if n > 4 else (None,))]
    out += [("perm", n, None) for n in range(1, 6)]
    if tier == "thorough":
        out += [("perm", 6, f) for f in SIZES]
    out += [("merge", k, i) for k in (1, 2, 3) for i in range(len(SETS))]
    out += [("big", 0, 0)]
    return out


def nodes_for(sizes, salt=0):
    """distinct, order-revealing node sequences (descending/rotated so that sorting would show)"""
    k, out = 0, []
    for j, s in enumerate(sizes):
        seq = [(7 * (k + i) + 3 + salt) % 1009 for i in range(s)]
        if j % 2:
            seq.reverse()
        out.append(tuple(seq))
        k += s
    return out


def pack_ref(faces):
    """faces in numbering order -> (starts, values)"""
    starts, values = [0], []
    for f in faces:
        values += f
        starts.append(len(values))
    return starts, values


def read_csr(z):
    return np.asarray(z._index).ravel().tolist(), np.asarray(z._value).ravel().tolist()


def faces_of(ec):
    rows = A.elems_of(ec)
    ids = [r[0] for r in rows]
    require(len(set(ids)) == len(ids), "face number used twice")
    for i, t, n in rows:
        require(FT.get(len(n)) == t, f"face {i} {n} stored as {t}")
    return {i: n for i, t, n in rows}


def plain_index(ec):
    idx = ec.all_index()
    require(all(np.ndim(i) == 0 for i in idx), f"face numbers are not plain integers: {idx[:4]}")
    return sorted(int(i) for i in idx)


def unpack(faces):
    starts, values = pack_ref(faces)
    ec = A.elem_connectivity()
    ec.importfrom_compressedindex(A.conn.compressed_listofindex(np.array(starts), np.array(values)))
    return ec


def run_seq(n, first, ctx):
    for sizes in itertools.product(SIZES, repeat=n):
        if first is not None and sizes[0] != first:
            continue
        faces = nodes_for(sizes)
        ec = unpack(faces)
        got = faces_of(ec)
        require(got == dict(enumerate(faces)), f"unpacking sizes {sizes}: {got} instead of {faces}")
        require(plain_index(ec) == list(range(n)), "numbering")
        require(ec.nelem == n, "number of faces")
        require(bool(ec.check()), "numbering check refuses a valid numbering")
        z = ec.exportto_compressedindex()
        require(read_csr(z) == tuple(pack_ref(faces)) and z.size == len(read_csr(z)[1]) and z.check(), f"pack(unpack) for sizes {sizes}")
        # an unpacked connectivity merges like any other
        m = A.elem_connectivity()
        m.importfrom_merge((ec, unpack(faces[::-1])))
        require(faces_of(m) == dict(enumerate(faces + faces[::-1])), f"merge of unpacked sizes {sizes}")
        ctx.state(sizes)
        ctx.count("transitions", 3)
        ctx.count("traces_validated_against_impl")
    ctx.sample({"kind": "seq", "n": n})


def run_perm(n, first, ctx):
    for sizes in itertools.product(SIZES, repeat=n):
        if first is not None and sizes[0] != first:
            continue
        faces = nodes_for(sizes, 5)
        for p in itertools.permutations(range(n)):
            by = {}
            for j in p:  # insertion order p, number of face j is j
                by.setdefault(sizes[j], []).append(j)
            blocks = [(FT[s], [faces[j] for j in js], js) for s, js in by.items()]
            ec = A.make_conn(blocks)
            require(faces_of(ec) == dict(enumerate(faces)), "add_elems")
            require(bool(ec.check()), f"numbering check refuses {blocks}")
            z = ec.exportto_compressedindex()
            require(read_csr(z) == tuple(pack_ref(faces)), f"packing {blocks} gives {read_csr(z)}")
            require(faces_of(ec) == dict(enumerate(faces)), "packing modified its source")
            # the same type added in two calls
            ec2 = A.elem_connectivity()
            for t, fs, js in blocks:
                for h in (0, 1):
                    if js[h::2]:
                        ec2.add_elems(t, np.array(fs[h::2]), A.indexlist(ilist=js[h::2]))
            require(faces_of(ec2) == dict(enumerate(faces)) and ec2.nelem == n, f"add_elems in two calls {blocks}")
            ctx.count("transitions", 3)
        ctx.state(sizes, "perm")
        ctx.count("traces_validated_against_impl")
    # invalid numberings are refused
    for bad in itertools.product(range(n + 1), repeat=n):
        if n > 4 or sorted(bad) == list(range(n)):
            continue
        ec = A.make_conn([("bar2", [(i, i + 1) for i in range(n)], list(bad))])
        try:
            ok = ec.check()
        except Exception:
            ok = False
        require(not ok, f"numbering {bad} passes the check")
        ctx.count("transitions")


SETS = [[]]
for _n in (1, 2, 3):
    for _s in itertools.product((2, 4) if _n > 1 else SIZES, repeat=_n):
        SETS += [list(zip(_s, _p)) for _p in itertools.permutations(range(_n))]
SETS = [s for s in SETS if s]


def make_set(spec, salt, as_range):
    sizes = [s for s, _ in spec]
    fs = nodes_for(sizes, salt)
    by = {}
    for (s, num), f in zip(spec, fs):
        by.setdefault(s, []).append((num, f))
    ec = A.elem_connectivity()
    for s, l in by.items():
        nums = [i for i, _ in l]
        if as_range and nums == list(range(nums[0], nums[0] + len(nums))):
            idx = A.indexlist(irange=[nums[0], nums[-1]])
        else:
            idx = A.indexlist(ilist=nums)
        ec.add_elems(FT[s], np.array([f for _, f in l]), idx)
    return ec, {num: f for (s, num), f in zip(spec, fs)}


def run_merge(k, i, ctx):
    rest = SETS if k == 2 else SETS[::5] if k == 3 else [None]
    for combo in itertools.product([SETS[i]], *[rest] * (k - 1)):
        for as_range in (False, True):
            made = [make_set(s, 11 * j, as_range) for j, s in enumerate(combo)]
            want, sh = {}, 0
            for _, ref in made:
                want.update({sh + n: f for n, f in ref.items()})
                sh += len(ref)
            ec = A.elem_connectivity()
            ec.importfrom_merge(tuple(m for m, _ in made))
            require(faces_of(ec) == want and ec.nelem == sh, f"merging {combo}: {faces_of(ec)} instead of {want}")
            for m, ref in made:
                require(faces_of(m) == ref, "merging modified its source")
            require(read_csr(ec.exportto_compressedindex()) == tuple(pack_ref([want[j] for j in range(sh)])), f"packing the merge of {combo}")
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
        ctx.state("merge", combo)


def run_big(_, __, ctx):
    sizes = [SIZES[(i * i + i // 7) % 3] for i in range(5000)]
    faces = nodes_for(sizes)
    ec = unpack(faces)
    require(faces_of(ec) == dict(enumerate(faces)), "unpacking 5000 faces")
    require(read_csr(ec.exportto_compressedindex()) == tuple(pack_ref(faces)), "packing 5000 faces")
    ctx.count("transitions", 2)
    ctx.count("traces_validated_against_impl")


def run(case, ctx):
    kind, a, b = case
    {"seq": run_seq, "perm": run_perm, "merge": run_merge, "big": run_big}[kind](a, b, ctx)
