"""C35 probe maps: what is drawn and saved for every variable, axis, map kind and option, alone and after another map."""
import itertools
import os
import shutil

import matplotlib
matplotlib.use("Agg")
import matplotlib.axes  # noqa: E402
import matplotlib.image  # noqa: E402
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402

import cfdtools._cli as cli  # noqa: E402

from .. import adapter as A  # noqa: E402
from ..core import require  # noqa: E402

PROP, LEVEL = "C35", "exploration"
ASSUMPTIONS = ["what is drawn is what is passed to the filled-contour function of matplotlib", "frequency maps need at least 600 samples (they show the lowest 1/200 of the frequencies)"]
RULE = "distinct = (variable, axis, map, colour map, levels, flags, lines, probes) and ordered pairs of maps drawn in one process"
VARS = ("P", "U-X", "Mach", "S", "INVX+", "INVX-", "U", "Asound", "RHO")
AXES = ("X", "Y", "Z", "dist")
N = 3
TABLE = {k: (a, b) for k, a, b in (("P", 1.0, .2), ("RHO", 2.0, .1), ("U-X", .3, .05), ("U-Y", .1, .02), ("U-Z", .2, .04))}


def stored(name, nt):
    i, t = np.arange(N)[None, :], 0.25 * np.arange(nt)[:, None]
    if name in "XYZ":
        return np.repeat({"X": 1.0 + 0.5 * i, "Y": 0.1 * i + 0.01 * i ** 2, "Z": -1.0 + 2.0 * i}[name], nt, axis=0)
    if name == "dist":
        return 5.0 + i + 1e-3 * np.cos(t)
    a, b = TABLE[name]
    return a + b * np.sin(0.05 * t * (i + 1) + a) + 0.1 * i


def value(name, nt):
    v = lambda k: value(k, nt)
    return {"Asound": lambda: np.sqrt(1.4 * v("P") / v("RHO")), "U": lambda: np.sqrt(v("U-X") ** 2 + v("U-Y") ** 2 + v("U-Z") ** 2),
            "Mach": lambda: v("U") / v("Asound"), "S": lambda: np.log(v("P") / v("RHO") ** 1.4) / 0.4,
            "INVX+": lambda: 5 * v("Asound") + v("U-X"), "INVX-": lambda: 5 * v("Asound") - v("U-X")}.get(name, lambda: stored(name, nt))()


def configs(tier):
    for var, ax, kind in itertools.product(VARS, AXES, ("time", "freq")):
        yield var, ax, kind, "turbo", 30, ()
    for kind, cmap, lev, fl in itertools.product(("time", "freq"), ("turbo", "jet", "viridis", "RdBu"), (5, 30), ((), ("-v",), ("--check",), ("-v", "--check"))):
        yield "Mach", "X", kind, cmap, lev, fl
    for kind in ("time", "freq"):
        yield "P", "X", kind, None, None, ()


def bounds(tier):
    return RULE + f"; {len(list(configs(tier)))} configurations x sample counts {lengths(tier)}; {len(PAIRS) ** 2} ordered pairs"


def lengths(tier):
    return (600, 801) if tier == "quick" else (600, 601, 801, 1000, 1400)


PAIRS = [("P", "X", "time", "turbo", 30, ()), ("Mach", "Y", "freq", "jet", 5, ()), ("INVX-", "X", "freq", "turbo", 30, ("-v",)), ("U", "dist", "time", "viridis", 5, ())]


def cases(tier, seed):
    return [(nt, (c,)) for nt in lengths(tier) for c in configs(tier)] + [(600, p) for p in itertools.product(PAIRS, repeat=2)]


def image(path):
    return matplotlib.image.imread(path)


def run(case, ctx):
    nt, seq = case
    d = os.path.join(A.scratch(), f"m{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    prefix = os.path.join(d, "my.line")
    calls = []
    orig = matplotlib.axes.Axes.contourf

    def rec(self, *a, **k):
        calls.append((a, k))
        return orig(self, *a, **k)

    matplotlib.axes.Axes.contourf = rec
    try:
        for f in list(TABLE) + list(AXES):
            s = stored(f, nt)
            with open(prefix + "." + f, "w") as fid:
                for it in range(nt):
                    fid.write(" ".join([str(it), repr(0.25 * it), str(N)] + [repr(float(x)) for x in s[it]]) + "\n")
        have = set(os.listdir(d))
        for var, ax, kind, cmap, lev, flags in seq:
            calls.clear()
            argv = [prefix, "--data", var, "--axis", ax, "--map", kind] + list(flags)
            if cmap:
                argv += ["--cmap", cmap, "--cmaplevels", str(lev)]
            cli.ic3probe_plotline(argv)
            what = f"{var} along {ax}, {kind} map"
            new = set(os.listdir(d)) - have
            png = f"my.line.{var}.{kind}.png"
            require(new == {png} or (not new and png in have), f"{what}: files {sorted(new)}")
            have |= new
            b = open(os.path.join(d, png), "rb").read()
            require(b[:8] == b"\x89PNG\r\n\x1a\n" and b"IEND" in b[-16:], f"{what}: not a PNG file")
            require(len(calls) == 1 and len(calls[0][0]) >= 3, f"{what}: {len(calls)} maps drawn")
            (x, y, z), k = calls[0][0][:3], calls[0][1]
            x, y, z = map(np.asarray, (x, y, z))
            axis = stored(ax, nt).mean(axis=0)
            require(x.shape == (N,) and np.allclose(x, axis, rtol=1e-12), f"{what}: axis {x} instead of {axis}")
            val = value(var, nt)
            if kind == "time":
                require(y.shape == (nt,) and np.allclose(y, 0.25 * np.arange(nt)), f"{what}: times")
                require(z.shape == val.shape and np.allclose(z, val, rtol=1e-12), f"{what}: values drawn are not those of {var}")
            else:
                require(len(y) >= 2 and z.shape == (len(y), N), f"{what}: shapes {y.shape} {z.shape}")
                m = np.rint(y * 0.25 * nt).astype(int)
                require(np.allclose(y, m / (0.25 * nt)) and m[0] >= 1 and (np.diff(m) == 1).all(), f"{what}: frequencies {y}")
                i = np.arange(nt)
                want = np.abs(np.exp(-2j * np.pi * np.outer(m, i) / nt) @ (val - val.mean()))
                require(np.allclose(z, want, rtol=1e-6, atol=1e-7), f"{what}: amplitudes of {var}")
            if cmap:
                require(k["cmap"].N == lev and k["levels"] == lev, f"{what}: {k['cmap'].N} colours, {k['levels']} levels instead of {lev}")
                require(np.allclose(k["cmap"](np.arange(lev)), plt.get_cmap(cmap, lev)(np.arange(lev)), atol=0.03), f"{what}: colours of {cmap}")
            require(k["cmap"] is not None, "colour map")
            ctx.count("evaluations")
            ctx.state(nt, seq)
        if len(seq) > 1:  # the last map drawn alone
            matplotlib.axes.Axes.contourf = orig
            png = f"my.line.{seq[-1][0]}.{seq[-1][2]}.png"
            after = image(os.path.join(d, png))
            plt.close("all")
            os.unlink(os.path.join(d, png))
            cli.ic3probe_plotline(argv)
            alone = image(os.path.join(d, png))
            require(after.shape == alone.shape and np.array_equal(after, alone), f"{seq[-1]} drawn after {seq[0]} is not the map drawn alone")
            ctx.count("evaluations")
        ctx.sample({"maps": repr(seq), "samples": nt})
    finally:
        matplotlib.axes.Axes.contourf = orig
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
