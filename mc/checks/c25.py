"""C25 spectra and spectrograms: every length, window, range and selection within the bounds against a direct transform."""
import itertools

import numpy as np

from .. import adapter as A
from ..core import require

PROP, LEVEL = "C25", "exploration"
ASSUMPTIONS = ["regular sampling; one-dimensional signals; windows of at least 4 samples and at most the length of the signal",
               "a window of n samples may be extended to 2*(n//2)+1 samples so that it has a centre (the documented scheme)"]
RULE = "distinct = (kind, length, window or range, selection, origin of time)"
NAMES = ("u", "v", "w")


def bounds(tier):
    n, m = lim(tier)
    return RULE + f"; spectra: lengths 2..{n} x all ranges (imin, imax) incl. negative and open ones x selections, lengths to {8 * n} with 9 ranges; " \
                  f"spectrograms: lengths 9..{m} x all windows 4..length x selections; default window at lengths 400..1000"


def lim(tier):
    return (14, 60) if tier == "quick" else (26, 130)


def cases(tier, seed):
    n, m = lim(tier)
    return [("sp", k) for k in range(2, n + 1)] + [("spl", k) for k in range(n + 1, 8 * n + 1)] + [("sg", k) for k in range(9, m + 1)] + [("sgd", k) for k in (400, 401, 503, 600, 999, 1000)]


def dataset(n, t0):
    t = t0 + 0.25 * np.arange(n)
    i = np.arange(n)
    d = {"time": t, "u": np.sin(1.1 * i) + 0.3 * i, "v": np.cos(0.4 * i * i) + 2.0, "w": (i % 3 == 1) + 0.001 * i * i}
    ds = A.data_mod.DataSet(Trep="timeevol")
    for k, v in d.items():
        ds.add_data(k, v.copy())
    return ds, d


def selections():
    yield None, NAMES
    for r in (1, 2, 3):
        for c in itertools.permutations(NAMES, r):
            if r < 3 or c == NAMES:
                yield list(c), c
    yield ["time", "v"], ("v",)
    yield ["v", "time", "u"], ("v", "u")


def unchanged(ds, d, sel, sel0):
    require(sel == sel0, f"the caller's selection {sel0} became {sel}")
    require(list(ds.keys()) == list(d), "data set keys changed")
    for k, v in d.items():
        require(np.array_equal(ds[k], v), f"{k} of the data set changed")


def dft(x):
    n = len(x)
    return np.abs(np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n) @ x)


def run(case, ctx):
    kind, n = case
    for t0 in (0.0, 5.0):
        if kind in ("sp", "spl"):
            ends = [None] + list(range(-n, n + 1)) if kind == "sp" else [None, 3, -2]
            for imin, imax in itertools.product(ends, repeat=2):
                m = len(range(n)[imin:imax])
                if m < 2:
                    continue
                for sel, names in (selections() if imin in (None, 1) and imax in (None, -1) else [(None, NAMES), (["u"], ("u",))]):
                    ds, d = dataset(n, t0)
                    arg = None if sel is None else list(sel)
                    kw = {} if arg is None else {"datafilter": arg}
                    sp = ds.dataSet_spectrum(imin=imin, imax=imax, **kw)
                    what = f"n={n} range {imin}:{imax} selection {sel}"
                    unchanged(ds, d, arg, sel)
                    require(sorted(sp.keys()) == sorted(("freq",) + tuple(names)), f"{what}: {list(sp.keys())}")
                    f = np.asarray(sp["freq"])
                    require(f.shape == (m,) and np.allclose(np.sort(f), np.sort(np.fft.fftfreq(m, 0.25))), f"{what}: frequencies {f}")
                    for k in names:
                        a = np.asarray(sp[k])
                        require(a.shape == f.shape, f"{what}: {a.shape} amplitudes of {k} for {f.shape} frequencies")
                        want = dft(d[k][imin:imax])[np.rint(f * 0.25 * m).astype(int) % m]
                        require(np.allclose(a, want, atol=1e-9 * max(1, want.max())), f"{what}: amplitudes of {k}")
                    ctx.state("sp", n, imin, imax, sel, t0)
                    ctx.count("evaluations")
        else:
            for win in ([None] if kind == "sgd" else range(4, n + 1)):
                for sel, names in (selections() if win in (4, 5, 8, None) else [(None, NAMES)]):
                    ds, d = dataset(n, t0)
                    arg = None if sel is None else list(sel)
                    sg = ds.dataSet_spectrogram(**({} if arg is None else {"datafilter": arg}), **({} if win is None else {"window": win}))
                    what = f"n={n} window {win} selection {sel}"
                    unchanged(ds, d, arg, sel)
                    require(sorted(sg.keys()) == sorted(("freq", "time") + tuple(names)), f"{what}: {list(sg.keys())}")
                    f, t = np.asarray(sg["freq"]), np.asarray(sg["time"])
                    h = (win or n // 100) // 2
                    s = 2 * h + 1
                    require((f >= 0).all() and (np.diff(f) > 0).all(), f"{what}: frequencies {f}")
                    fi = np.rint(f * s * 0.25).astype(int)
                    require(np.allclose(f, fi / (s * 0.25)), f"{what}: frequencies {f} are not those of {s} samples")
                    ti = np.rint((t - t0) / 0.25).astype(int)
                    require(np.allclose(t, t0 + 0.25 * ti) and len(set(ti)) == len(ti), f"{what}: times {t}")
                    require(s > n or len(ti) >= 1, f"{what}: no time position")
                    for k in names:
                        v = np.asarray(sg[k])
                        require(v.shape == (len(t), len(f)), f"{what}: shape {v.shape} for {len(t)} times and {len(f)} frequencies")
                        for row, c in zip(v, ti):
                            require(c - h >= 0 and c + h + 1 <= n, f"{what}: window around sample {c} is not inside the signal")
                            want = np.abs(np.fft.fft(d[k][c - h:c + h + 1] * np.hanning(s)))[fi]
                            got = np.exp(row)
                            require(np.allclose(got, want, rtol=1e-6, atol=1e-9 * max(1, np.abs(d[k]).max())), f"{what}: {k} at sample {c}: {got} instead of {want}")
                    ctx.state("sg", n, win, sel, t0)
                    ctx.count("evaluations")
    ctx.sample({"case": repr(case)})
