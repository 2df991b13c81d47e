"""C05 index sets against plain lists, over all operation histories."""
import itertools

import numpy as np

from .. import adapter as A
from ..core import Violation, bfs, require

PROP, LEVEL = "C05", "model_checking"
ASSUMPTIONS = ["a range is given by its first and last elements, both included (first = last + 1 is the empty range)",
               "reading the range of an index set stored as a list is refused"]
DEPTH = {"quick": 4, "thorough": 6}
CONTENT = [[], [0], [3], [0, 1, 2], [2, 1, 0], [4, 5], [5, 7], [1, 1], [-1, 0], [0, 1, 3]]
RANGES = [(0, 0), (0, 2), (3, 6), (-2, 1), (5, 5), (0, -1)]
NEW = [("list", l) for l in ([], [0], [1, 2], [3, 3], [7, 6])] + [("range", r) for r in ((0, 1), (3, 3))]


def bounds(tier):
    return f"all histories to depth {DEPTH[tier]} of append/shift/concatenate/compress/set operations from {len(CONTENT) + len(RANGES)} initial sets (contents bounded to 9 elements)"


def cases(tier, seed):
    return [("list", c) for c in CONTENT] + [("range", r) for r in RANGES] + [("array", c) for c in CONTENT if c] + [("long", 0)]


def make(kind, c):
    if kind == "range":
        return A.indexlist(irange=list(c)), list(range(c[0], c[1] + 1))
    return A.indexlist(ilist=np.array(c) if kind == "array" else list(c)), list(c)


def plain(ix):
    return [int(np.asarray(i).item()) for i in ix.list()]


def consecutive(l):
    return bool(l) and l == list(range(l[0], l[0] + len(l)))


class Sys:
    def __init__(self, case):
        self.type = None  # unknown until compressed
        self.others = []  # operands that must not change: (index set, expected content)
        self.lists = []  # caller's lists (and sets built from the same list) that must not change
        if case[0] == "list":
            src = list(case[1])
            self.ix, self.ref = A.indexlist(ilist=src), list(src)
            self.lists.append((src, A.indexlist(ilist=src), list(src)))
        else:
            self.ix, self.ref = make(*case)


def step(s, ev):
    op = ev[0]
    if op == "append":
        arg = list(ev[1])
        s.ix.append(arg)
        require(arg == list(ev[1]), "append modified its argument")
        s.ref = s.ref + list(ev[1])
    elif op == "appendarray":
        s.ix.append(np.array(ev[1], dtype=int))
        s.ref = s.ref + list(ev[1])
    elif op == "shift":
        old, oldref = s.ix, list(s.ref)
        s.ix = old.shift(ev[1])
        s.ref = [i + ev[1] for i in s.ref]
        s.others.append((old, oldref))
    elif op in ("addr", "addl"):
        o, oref = make(*ev[1])
        old, oldref = s.ix, list(s.ref)
        s.ix = old + o if op == "addr" else o + old
        s.ref = s.ref + oref if op == "addr" else oref + s.ref
        s.others += [(old, oldref), (o, oref)]
    elif op == "compress":
        s.ix.compress()
        require(s.ix.type == ("range" if consecutive(s.ref) else s.ix.type), f"{s.ref} consecutive but stored as {s.ix.type}")
        if not consecutive(s.ref) and s.ref:
            require(s.ix.type == "list", f"{s.ref} not consecutive but stored as a range")
    elif op == "setlist":
        src = list(ev[1])
        s.ix.set_list(src)
        s.ref = list(ev[1])
        s.lists = [(src, A.indexlist(ilist=src), list(src))]
    elif op == "setrange":
        s.ix.set_range(list(ev[1]))
        s.ref = list(range(ev[1][0], ev[1][1] + 1))
    s.others = s.others[-3:]


def check(s, hist):
    ref = s.ref
    require(plain(s.ix) == ref, f"content {plain(s.ix)} instead of {ref}")
    require(s.ix.size == len(ref), f"size {s.ix.size} instead of {len(ref)}")
    for k in range(-len(ref), len(ref)):
        require(int(s.ix[k]) == ref[k], f"element {k}")
    require([int(i) for i in s.ix[1:]] == ref[1:], "slice")
    str(s.ix)
    if s.ix.type == "range":
        r = [int(i) for i in s.ix.range()]
        require(list(range(r[0], r[1] + 1)) == ref, f"range {r} for {ref}")
    else:
        try:
            s.ix.range()
        except Exception:
            pass
        else:
            raise Violation("range() of a list index set is not refused")
    got = s.ix.list()
    got.append(99)  # the list returned is the caller's
    require(plain(s.ix) == ref, "the list returned aliases the index set")
    for src, sibling, want in s.lists:
        require(src == want, f"the list given by the caller changed: {src} instead of {want}")
        require(plain(sibling) == want, f"an index set built from the same list changed: {plain(sibling)} instead of {want}")
    for o, oref in s.others:
        require(plain(o) == oref, f"another index set changed: {plain(o)} instead of {oref}")


def events(s):
    ev = [("compress",), ("setlist", (2, 3)), ("setrange", (1, 2))]
    if len(s.ref) <= 6:
        last = s.ref[-1] if s.ref else 0
        ev += [("append", ()), ("append", (last + 1,)), ("append", (0, 5)), ("appendarray", (last + 1, last + 2))]
        ev += [(o, n) for n in NEW for o in ("addr", "addl")]
        ev += [("addr", ("range", (last + 1, last + 2)))]
    if all(abs(i) < 12 for i in s.ref):
        ev += [("shift", 1), ("shift", -3), ("shift", 0)]
    return ev


def run(case, ctx):
    if case[0] == "long":
        for n in (1, 2, 3, 10, 1000):
            for d in range(0, n, max(1, n // 10)):
                l = list(range(5, 5 + n))
                ix = A.indexlist(ilist=list(l))
                ix.compress()
                require(ix.type == "range" and plain(ix) == l, "compress of consecutive integers")
                l[d] += 1
                ix = A.indexlist(ilist=list(l))
                ix.compress()
                require(plain(ix) == l and (ix.type == "list") == (not consecutive(l)), f"compress of perturbed list at {d}/{n}")
                ctx.count("transitions", 2)
                ctx.state("long", n, d)
        ctx.count("traces_validated_against_impl")
        return
    n = bfs(ctx, lambda: Sys(case), events, step, lambda s: (s.ix.type, tuple(s.ref)), check, DEPTH[ctx.tier], "h")
    ctx.count("traces_validated_against_impl", n)
    ctx.sample({"initial": repr(case), "states": n, "depth": DEPTH[ctx.tier]})
