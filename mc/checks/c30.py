"""C30 probe variables: every subset of files x request histories against a dependency closure."""
import itertools
import os

import numpy as np

import cfdtools.probes.data as pd

from .. import adapter as A
from ..core import Violation, bfs, require

PROP, LEVEL = "C30", "model_checking"
ASSUMPTIONS = ["a stored variable is taken from its file, even when it could also be derived",
               "the coordinates are the same on every line of their file", "files hold at least one line"]
FILES = ("P", "RHO", "U-X", "U-Y", "U-Z", "X", "Asound", "U", "T")
REQ = ("P", "RHO", "U-X", "U-Y", "U-Z", "X", "U", "Asound", "Mach", "S", "INVX+", "INVX-", "T", "nosuch")
DEPS = {"Asound": ("P", "RHO"), "S": ("P", "RHO"), "Mach": ("U", "Asound"), "U": ("U-X", "U-Y", "U-Z"),
        "INVX+": ("U-X", "Asound"), "INVX-": ("U-X", "Asound")}
DEF = {"U": lambda v: np.sqrt(v("U-X") ** 2 + v("U-Y") ** 2 + v("U-Z") ** 2), "Mach": lambda v: v("U") / v("Asound"),
       "Asound": lambda v: np.sqrt(1.4 * v("P") / v("RHO")), "INVX+": lambda v: 5 * v("Asound") + v("U-X"),
       "INVX-": lambda v: 5 * v("Asound") - v("U-X"), "S": lambda v: np.log(v("P") / v("RHO") ** 1.4) / 0.4}
SHAPES = {"quick": [(3, 2)], "thorough": [(3, 2), (1, 3), (4, 1), (2, 5)]}
DEPTH = {"quick": 3, "thorough": 5}


def bounds(tier):
    return (f"all {2 ** len(FILES)} subsets of the files {FILES} x all request histories to depth {DEPTH[tier]} over {len(REQ)} names "
            f"(states merged on the variables held and their values, failed requests included) x (lines, probes) in {SHAPES[tier]}; "
            "and all single requests after loading every ordered pair without merging")


def cases(tier, seed):
    return [(sh, k) for sh in SHAPES[tier] for k in range(2 ** len(FILES))]


def stored(name, nt, n):
    i = FILES.index(name)
    a = 1.0 + 0.125 * i + 0.25 * np.arange(nt)[:, None] * (i + 1) + 0.0625 * np.arange(n)[None, :] ** 2
    return np.repeat(a[:1], nt, axis=0) if name == "X" else a


class Sys:
    def __init__(self, prefix, nt, n, files):
        self.d = pd.phydata(prefix)
        self.prefix, self.nt, self.n, self.files = prefix, nt, n, files
        self.asked = {}

    def ref(self, name):
        """value by definition, or None when it cannot be obtained"""
        if name in self.files:
            s = stored(name, self.nt, self.n)
            return s[0] if name == "X" else s
        if name not in DEPS or any(self.ref(x) is None for x in DEPS[name]):
            return None
        return DEF[name](self.ref)


def ask(s, name):
    try:
        ok = s.d.check_data(name, prefix=s.prefix)
    except (NameError, KeyError, OSError, ValueError, RuntimeError):
        ok = None
    want = s.ref(name)
    if (ok is None) != (want is None):
        raise Violation(f"{name} with files {sorted(s.files)}: {'refused' if ok is None else 'accepted'}")
    if want is not None:
        require(bool(ok), f"{name}: success not reported")
        s.asked[name] = want


def check(s, hist):
    for name, want in s.asked.items():
        got = np.asarray(s.d.alldata[name])
        require(got.size == want.size and got.squeeze().shape == want.squeeze().shape and
                np.allclose(got.squeeze(), want.squeeze(), rtol=1e-12, atol=0), f"{name} = {got.tolist()} instead of {want.tolist()}")
    if "time" in s.d.alldata:
        require(np.array_equal(s.d.alldata["time"], 0.5 * np.arange(s.nt)), "time")


def run(case, ctx):
    (nt, n), mask = case
    files = {f for i, f in enumerate(FILES) if mask >> i & 1}
    d = os.path.join(A.scratch(), f"p{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    prefix = os.path.join(d, "line.probe")
    try:
        for f in files:
            with open(prefix + "." + f, "w") as fid:
                for it, row in enumerate(stored(f, nt, n)):
                    fid.write(" ".join([str(it * 10), repr(0.5 * it), str(n)] + [repr(float(x)) for x in row]) + "\n")
        init = lambda: Sys(prefix, nt, n, files)
        canon = lambda s: tuple(sorted((k, np.asarray(v).tobytes()) for k, v in s.d.alldata.items()))
        m = bfs(ctx, init, lambda s: REQ, ask, canon, check, DEPTH[ctx.tier], (nt, n, mask))
        ctx.count("traces_validated_against_impl", m)
        for pair in itertools.product(REQ, repeat=2) if mask % 8 == 7 or ctx.tier == "thorough" else []:
            s = init()
            for name in pair:
                ask(s, name)
            check(s, pair)
            ctx.count("transitions", 2)
            ctx.count("traces_validated_against_impl")
        ctx.outcome(tuple(sorted(r for r in REQ if Sys(prefix, nt, n, files).ref(r) is not None)))
        ctx.sample({"files": sorted(files), "states": m})
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
