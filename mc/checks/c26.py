"""C26 polynomial bases: every order, family, monomial and query history against exact rational arithmetic."""
import itertools
from fractions import Fraction as F

import numpy as np
from scipy.special import roots_legendre

import cfdtools.utils.polybase as pb

from ..core import require

PROP, LEVEL = "C26", "exploration"
ASSUMPTIONS = ["rounding: relative 1e-14 times the condition number of the basis (at most 1e-8)"]
RULE = "distinct = (family, order, monomial, point) and (family pair, query history)"
PTS = [-1.0, 1.0, 0.0, 0.5, -0.25, 0.3, -0.9375, 0.7071, 1.5, -2.0]
Q = ("value", "diff", "interp", "grad", "vdm", "invvdm", "valuearray", "scribble")


def bounds(tier):
    n, d = lim(tier)
    return RULE + f"; orders 1..{n}, both families, all monomials below the order, {len(PTS)} points and all basis points, scalars and arrays; " \
                  f"all query histories of {d} queries over 2 objects"


def lim(tier):
    return (12, 3) if tier == "quick" else (16, 4)


def cases(tier, seed):
    n, d = lim(tier)
    return [("w", f, o) for o in range(1, n + 1) for f in ("legendre", "polynomial")] + \
           [("h", fs, o, q) for fs in itertools.product(("legendre", "polynomial"), repeat=2) for o in ((1, 1), (2, 3), (4, 4)) for q in Q]


def points(b, order):
    r = np.array(getattr(b, "_roots", roots_legendre(order)[0]), float)
    require(r.shape == (order,) and len(set(r.tolist())) == order, f"basis points {r}")
    return r


def exact(w, r, x, k, d):
    """weights w at points r applied to x^k, against the value (or derivative) at x, exactly"""
    s = sum(F(float(a)) * F(float(p)) ** k for a, p in zip(w, r))
    t = (F(x) ** k if not d else (k * F(x) ** (k - 1) if k else F(0)))
    return float(abs(s - t))


def run(case, ctx):
    if case[0] == "h":
        return hist(case, ctx)
    _, fam, order = case
    for o in (order, order + 1):  # bases of the other family used before, and kept alive
        for f in ("legendre", "polynomial"):
            if (o, f) != (order, fam):
                query(pb.poly1d(o, series=f), "grad", 0.25)
    b = pb.poly1d(order, series=fam)
    r = points(b, order)
    tol = max(1e-13, 1e-14 * np.linalg.cond(np.vander(r))) * 100
    tol = min(tol, 1e-7)
    xs = PTS + [float(p) for p in r]
    for x in xs:
        scale = max(1.0, abs(x)) ** order * order ** 2
        w, g = b.interp_weights(x), b.diff_weights(x)
        require(np.shape(w) == (order,) and np.shape(g) == (order,), f"shapes {np.shape(w)} {np.shape(g)}")
        for k in range(order):
            e, d = exact(w, r, x, k, False), exact(g, r, x, k, True)
            require(e < tol * scale, f"value of x^{k} at {x}: error {e}")
            require(d < tol * scale * order, f"derivative of x^{k} at {x}: error {d}")
            ctx.state(fam, order, k, x)
            ctx.count("evaluations", 2)
    for j, p in enumerate(r):
        w = np.asarray(b.value_weights(float(p)))
        require(np.abs(w - np.eye(order)[j]).max() < tol, f"weights at basis point {j}: {w}")
    for shape in ((len(xs),), (2, 3)):
        xa = np.array((xs * 2)[: int(np.prod(shape))]).reshape(shape)
        if len(shape) > 1:
            continue
        for fn in ("interp_weights", "diff_weights", "value_weights", "gradv_weights"):
            wa = np.asarray(getattr(b, fn)(xa))
            require(wa.shape == (order,) + shape, f"{fn} of an array: {wa.shape}")
            for i, x in enumerate(xa):
                require(np.allclose(wa[:, i], getattr(b, fn)(float(x)), rtol=0, atol=tol * 10), f"{fn} of an array at {x}")
    ctx.sample({"family": fam, "order": order})


def query(b, q, x):
    if q in ("value", "interp"):
        return np.array((b.value_weights if q == "value" else b.interp_weights)(x))
    if q in ("diff", "grad"):
        return np.array((b.diff_weights if q == "diff" else b.gradv_weights)(x))
    if q == "valuearray":
        return np.array(b.value_weights(np.array([x, -x])))
    if q == "scribble":  # weights returned belong to the caller
        for f in (b.value_weights, b.diff_weights):
            w = f(x)
            w *= 0
            w += 7
        return None
    return np.array(getattr(b, q))


def hist(case, ctx):
    _, fams, orders, first = case
    ref = {(i, q, x): query(pb.poly1d(orders[i], series=fams[i]), q, x) for i in (0, 1) for q in Q for x in (0.25, 1.0)}
    roots = [points(pb.poly1d(orders[i], series=fams[i]), orders[i]) for i in (0, 1)]
    n = lim(ctx.tier)[1]
    for i0 in (0, 1):
        for tail in itertools.product(itertools.product((0, 1), Q), repeat=n - 1):
            bs = [pb.poly1d(orders[i], series=fams[i]) for i in (0, 1)]
            h = ((i0, first),) + tail
            for step, (i, q) in enumerate(h):
                x = (0.25, 1.0)[step % 2]
                got, want = query(bs[i], q, x), ref[i, q, x]
                if got is not None and q not in ("vdm", "invvdm"):
                    r, o = roots[i], orders[i]
                    w = got[:, 0] if q == "valuearray" else got
                    for k in range(o):
                        err = exact(w, r, x, k, q in ("diff", "grad"))
                        require(err < 1e-9, f"{fams} {orders}: {h[:step + 1]}: error {err} on x^{k}")
                require((got is None) == (want is None) and (got is None or np.array_equal(got, want)), f"{fams} {orders}: {h[:step + 1]} differs from a fresh basis")
                ctx.count("evaluations")
            ctx.state(fams, orders, h)
