"""Explicit-state / stateless exploration core shared by every check.

A check module (mc/checks/cNN.py) declares

    PROP, LEVEL, RULE, ASSUMPTIONS
    cases(tier, seed)  -> iterable of picklable case descriptors (the enumerated space, simplest first)
    run(case, ctx)     -> drives the real code of /repo for this case, judging every execution
                          (raise Violation / ctx.fail(...); any unexpected exception is a violation too)

The runner enumerates *all* cases (no sampling, no early cap) on a pool of forked workers, merges the
measured counters, matches violations with the committed known-findings file, writes the evidence file and
replay artefacts and sets the exit status.
"""
import hashlib
import json
import logging
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import pickle
import re
import signal
import sys
import time
import traceback
from collections import deque
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("MC_REPO", "/repo"))
EVID = VERIF / "evidence"
KNOWN = VERIF / "KNOWN_FINDINGS.txt"


class Violation(Exception):
    """The property is broken by this case.  `sig` identifies the failing input/call site/history."""

    def __init__(self, msg, sig=None, detail=None):
        super().__init__(msg)
        self.msg, self.sig, self.detail = msg, sig, detail


class CaseTimeout(BaseException):
    pass


def require(cond, msg, sig=None, detail=None):
    if not cond:
        raise Violation(msg, sig, detail)


def h64(*key):
    """deterministic 64-bit hash of a printable key (no dependence on PYTHONHASHSEED)"""
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "little")


class Ctx:
    """measured counters of one case; merged over all cases by the runner"""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.counts = {}
        self.states = set()
        self.outcomes = set()
        self.fails = []
        self.samples = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *key):
        """register a (distinct) explored state; returns True when new in this case"""
        k = h64(*key)
        new = k not in self.states
        self.states.add(k)
        return new

    def outcome(self, *key):
        self.outcomes.add(h64(*key))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def fail(self, msg, sig=None, detail=None):
        self.fails.append((msg, sig, detail))

    def attempt(self, fn, *args, sig=None, what=""):
        """run fn, turning a Violation / exception into a recorded failure of this sub-case"""
        try:
            return fn(*args)
        except Violation as v:
            self.fail(v.msg, v.sig or sig, v.detail)
        except Exception as e:  # the code under test (or its contract) failed
            self.fail(f"{what} raised {type(e).__name__}: {e}", sig, traceback.format_exc(limit=-6))
        return None


def child(fn, *a):
    """result of fn in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                res = (True, fn(*a))
            except BaseException as e:  # noqa: B902
                res = (False, f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-4)}")
            with os.fdopen(w, "wb") as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        raw = f.read()
    os.waitpid(pid, 0)
    require(raw, f"the process died in {getattr(fn, '__name__', fn)}{a}")
    ok, v = pickle.loads(raw)
    if not ok:
        raise RuntimeError(v)
    return v


# ------------------------------------------------------------------------------------------------------------
# generic explorers


def explore_choices(body, max_dev=None):
    """Stateless exhaustive exploration of every choice sequence of body(choose).

    choose(n) returns an int in range(n); option 0 is the default.  With max_dev, only executions with at most
    that many non-default choices are explored (deviation bounding).  Yields (choices, result)."""
    stack = [()]
    while stack:
        prefix = stack.pop()
        trace = []

        def choose(n, _t=trace, _p=prefix):
            i = len(_t)
            c = _p[i] if i < len(_p) else 0
            if c >= n:
                raise RuntimeError("divergence while replaying a prefix")
            _t.append((c, n))
            return c

        res = body(choose)
        if len(trace) < len(prefix):
            raise RuntimeError("divergence: execution shorter than its prefix")
        yield tuple(c for c, _ in trace), res
        dev = sum(1 for c in prefix if c)
        if max_dev is not None and dev >= max_dev:
            continue
        for i in range(len(trace) - 1, len(prefix) - 1, -1):
            for alt in range(trace[i][1] - 1, 0, -1):
                stack.append(tuple(c for c, _ in trace[:i]) + (alt,))


def bfs(ctx, init, events, step, canon, check, depth, label=None):
    """Explicit-state breadth-first search by history replay.

    init() -> fresh system (real objects + reference model);  events(sys) -> finite menu of events;
    step(sys, ev) -> mutate;  canon(sys) -> hashable canonical state; check(sys, hist) -> raises Violation.
    A state is reached by replaying its (shortest) history on a fresh system."""

    def build(hist):
        s = init()
        for ev in hist:
            step(s, ev)
        return s

    s0 = init()
    check(s0, ())
    k0 = canon(s0)
    seen = {h64(k0)}
    ctx.state(label, k0)
    frontier = deque([()])
    while frontier:
        hist = frontier.popleft()
        if len(hist) >= depth:
            continue
        for ev in events(build(hist)):
            h2 = hist + (ev,)
            try:
                s2 = build(h2)
                check(s2, h2)
            except Violation as v:
                v.detail = {"history": repr(h2), "detail": v.detail}
                raise
            except Exception as e:
                raise Violation(f"history {h2!r} raised {type(e).__name__}: {e}", None,
                                traceback.format_exc(limit=-6))
            ctx.count("transitions")
            k = canon(s2)
            hk = h64(k)
            if hk not in seen:
                seen.add(hk)
                ctx.state(label, k)
                frontier.append(h2)
    return len(seen)


# ------------------------------------------------------------------------------------------------------------
# runner


def _alarm(signum, frame):
    raise CaseTimeout()


def _worker(mod, cases, counter, conn, tier, seed, tlimit):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_DEBUG"):
        os.dup2(devnull, 2)
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)
    adapter = None
    if not getattr(mod, "NO_ADAPTER", False):
        from . import adapter

    while True:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(cases):
            conn.send(("end", None, None))
            conn.close()
            os._exit(0)
        conn.send(("start", i, None))
        conn.send(("done", i, run_case(mod, cases[i], tier, seed, tlimit, adapter)))


def run_case(mod, case, tier, seed, tlimit, adapter):
    ctx = Ctx(tier, seed)
    try:
        if adapter is not None:
            adapter.reset_globals()
        if tlimit:
            signal.setitimer(signal.ITIMER_REAL, tlimit)
        mod.run(case, ctx)
    except Violation as v:
        ctx.fail(v.msg, v.sig, v.detail)
    except CaseTimeout:
        ctx.fail(f"execution did not finish within {tlimit}s", None, None)
    except Exception as e:
        ctx.fail(f"raised {type(e).__name__}: {e}", None, traceback.format_exc(limit=-8))
    finally:
        if tlimit:
            signal.setitimer(signal.ITIMER_REAL, 0)
    ctx.count("cases")
    return (ctx.counts, ctx.states, ctx.outcomes, ctx.fails, ctx.samples)


def load_known(prop):
    known = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main(mod, tier, seed, nproc=None, only=None):
    t0 = time.time()
    prop = mod.PROP
    EVID.mkdir(exist_ok=True)
    if not getattr(mod, "NO_ADAPTER", False):
        from . import adapter  # noqa: F401 -- imports cfdtools from REPO in the parent (workers are forked)

    cases = list(mod.cases(tier, seed))
    if only is not None:
        cases = [cases[only]]
    tlimit = getattr(mod, "CASE_TIMEOUT", 240)
    nproc = nproc or int(os.environ.get("MC_NPROC", "0")) or min(8, os.cpu_count() or 1)
    nproc = max(1, min(nproc, len(cases)))
    fctx = mp.get_context("fork")
    counter = fctx.Value("l", 0)
    conns = {}

    def spawn():
        r, w = fctx.Pipe(duplex=False)
        p = fctx.Process(target=_worker, args=(mod, cases, counter, w, tier, seed, tlimit), daemon=True)
        p.start()
        w.close()
        conns[r] = [p, None, time.time()]

    for _ in range(nproc):
        spawn()
    counts, states, outcomes, fails, samples, kinds = {}, set(), set(), [], [], {}
    while conns:
        for r in mpc.wait(list(conns), timeout=5):
            try:
                kind, i, res = r.recv()
            except (EOFError, OSError):
                p, cur, _ = conns.pop(r)
                p.join(5)
                if cur is not None:
                    fails.append((cur, f"the process died (exit {p.exitcode}) during this case", None, None))
                    if sum(1 for f in fails if "process died" in f[1]) < 20:
                        spawn()
                continue
            if kind == "end":
                p = conns.pop(r)[0]
                p.join(5)
            elif kind == "start":
                conns[r][1:] = [i, time.time()]
            else:
                c, s, o, f, sm = res
                conns[r][1:] = [None, time.time()]
                for k, n in c.items():
                    counts[k] = counts.get(k, 0) + n
                states |= s
                outcomes |= o
                for x in f:  # many of one kind must not hide another
                    kinds[x[1]] = kinds.get(x[1], 0) + 1
                    if kinds[x[1]] <= 400 and sum(y[0] == i and y[2] == x[1] for y in fails[-100:]) < 50:
                        fails.append((i, *x))
                if len(samples) < 4:
                    samples += sm[:1]
        now = time.time()
        for r, (p, cur, ts) in list(conns.items()):
            if cur is not None and now - ts > tlimit + 60:
                p.kill()
    samples = samples[:4]
    fails.sort(key=lambda f: f[0])
    known = load_known(prop)
    hits, real = {}, []
    for f in fails:
        sig = f[2] or ""
        for ksig, what in known:
            if sig and re.fullmatch(ksig, sig):
                hits[ksig] = hits.get(ksig, 0) + 1
                break
        else:
            real.append(f)
    for ksig, what in known:
        if ksig in hits:
            print(f"KNOWN-FINDING: property={prop} {what}")
    wall = round(time.time() - t0, 3)
    for k, v in getattr(mod, "PARENT_COUNTS", {}).items():
        counts[k] = counts.get(k, 0) + v
    cov = {k: v for k, v in counts.items()}
    level = mod.LEVEL
    if level == "model_checking":
        cov["work_items"] = cov.pop("cases", 0)
    if level == "model_checking":
        cov["states"] = len(states)
        cov.setdefault("transitions", 0)
        cov.setdefault("traces_validated_against_impl", 0)
    else:
        cases_n = cov.pop("cases", 0)
        cov.setdefault("evaluations", cases_n)
        cov["distinct_nontrivial"] = len(states)
        cov["rule"] = mod.RULE
    cov["distinct_outcomes"] = len(outcomes)
    cov["samples"] = samples or [repr(cases[0])[:500]]
    cov["exhaustive"] = only is None
    cov["bounds"] = mod.bounds(tier) if hasattr(mod, "bounds") else mod.RULE
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": wall, "violations": len(real),
    }
    if only is None:
        (EVID / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
    brief = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{prop} {tier} seed={seed} {brief} wall={wall}s violations={len(real)} known={sum(hits.values())}")
    if real:
        i, msg, sig, detail = real[0]
        rp = EVID / f"replay-{prop}.json"
        rp.write_text(json.dumps({
            "property": prop, "tier": tier, "seed": seed, "case_index": i, "case": repr(cases[i] if only is None else cases[0]),
            "message": msg, "sig": sig, "detail": detail,
            "replay_cmd": f"cd /verif && ./check {prop} --tier {tier} --seed {seed} --case {i}",
            "others": [(f[0], f[1][:300], f[2]) for f in real[1:20]],
        }, indent=1, default=str) + "\n")
        for f in real[:5]:
            print(f"  case {f[0]} sig={f[2]}: {f[1][:400]}")
        if os.environ.get("MC_DEBUG"):
            print(detail if isinstance(detail, str) else json.dumps(detail, default=str, indent=1))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    return 0
