"""C31 timers: all call histories under a virtual clock against a two-variable automaton."""
import itertools
import logging

from .. import adapter as A
from ..core import Violation, require

PROP, LEVEL = "C31", "model_checking"
ASSUMPTIONS = ["the timer reads one of the standard clocks of the time module (all of them are virtual during the check)",
               "the k-th event lasts 2^k time units, so that a sum of intervals identifies the intervals"]
ONE = ("start", "pause", "stop", "stopn", "enter", "exit", "exiterr", "reset")
TWO = ("start", "pause", "stop", "enter", "exit")


def bounds(tier):
    d = depths(tier)
    return (f"all histories of exactly {d[0]} calls (every prefix judged) over {len(ONE)} calls on one timer, and of {d[1]} calls over "
            f"{len(TWO)} calls on each of two timers, from four constructor variants; no state merging")


def depths(tier):
    return (6, 5) if tier == "quick" else (7, 6)


KW = [dict(), dict(task="x", nelem=10), dict(task="y" * 80, ltab=20), dict(msg="m", nelem=1)]


def cases(tier, seed):
    return [(1, k, ev) for k in range(len(KW)) for ev in itertools.product(ONE, repeat=2)] + \
           [(2, 0, ev) for ev in itertools.product([(t, e) for t in (0, 1) for e in TWO], repeat=2)]


class Rec(logging.Handler):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def emit(self, r):
        self.msgs.append(r.getMessage())


def apply(t, op):
    if op == "start":
        t.start()
    elif op == "pause":
        t.pause()
    elif op == "stop":
        t.stop()
    elif op == "stopn":
        t.stop(nelem=5)
    elif op == "enter":
        t.__enter__()
    elif op == "exit":
        t.__exit__(None, None, None)
    elif op == "exiterr":
        e = ValueError("x")
        require(not t.__exit__(ValueError, e, None), "the timer swallows the exception of its block")
    elif op == "reset":
        t.reset()


def history(hist, kw, nt, rec, ctx):
    C = A.Clock
    C.now = 1000.0
    ts = [A.api.Timer(**kw) for _ in range(nt)]
    ref = [[None, 0.0] for _ in range(nt)]  # start time, accumulated
    for k, ev in enumerate(hist):
        i, op = ev if nt > 1 else (0, ev)
        C.now += 2.0 ** k
        r = ref[i]
        rec.msgs.clear()
        try:
            apply(ts[i], op)
            ok = True
        except A.api.TimerError:
            ok = False
        starts = op in ("start", "enter")
        legal = True if op == "reset" else (r[0] is None) == starts
        if ok != legal:
            raise Violation(f"{hist[:k + 1]}: call {'accepted' if ok else 'refused'} while the timer is {'stopped' if r[0] is None else 'running'}")
        if legal:
            if op == "reset":
                ref[i] = [None, 0.0]
            elif starts:
                r[0] = C.now
            else:
                r[1] += C.now - r[0]
                r[0] = None
                if op != "pause":
                    if not any(f"{r[1]:0.4f}" in m for m in rec.msgs):
                        raise Violation(f"{hist[:k + 1]}: {r[1]} s not reported: {rec.msgs}")
                    r[1] = 0.0
        for t, (s, e) in zip(ts, ref):
            if abs(t.elapsed - e) > 1e-9:
                raise Violation(f"{hist[:k + 1]}: elapsed {t.elapsed} instead of {e}")
        ctx.count("transitions")
    ctx.state(tuple((s is None, e) for s, e in ref), kw.get("nelem"))
    ctx.outcome(tuple(s is None for s, _ in ref))


def run(case, ctx):
    nt, k, prefix = case
    d = depths(ctx.tier)[nt - 1]
    menu = ONE if nt == 1 else [(t, e) for t in (0, 1) for e in TWO]
    rec = Rec()
    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    old = root.level, root.handlers[:]
    root.handlers[:] = [rec]
    root.setLevel(logging.INFO)
    A.Clock.active = True
    try:
        for tail in itertools.product(menu, repeat=d - len(prefix)):
            history(prefix + tail, KW[k], nt, rec, ctx)
            ctx.count("traces_validated_against_impl")
        with_block(KW[k])
    finally:
        A.Clock.active = False
        root.handlers[:] = old[1]
        root.setLevel(old[0])
        logging.disable(logging.CRITICAL)
    ctx.sample({"timers": nt, "first events": repr(prefix), "depth": d})


def with_block(kw):
    t = A.api.Timer(**kw)
    with t:
        A.Clock.now += 1
    require(t.elapsed == 0, "timer not stopped by its block")
    try:
        with t:
            A.Clock.now += 1
            raise KeyError
    except KeyError:
        pass
    t.start()
    A.Clock.now += 3
    t.pause()
    require(t.elapsed == 3, "timer after an exception in its block")
