"""C34 import orders: every sequence of first imports, the package being forgotten in between."""
import importlib
import itertools
import logging
import os
import subprocess
import sys

from ..core import REPO, require

NO_ADAPTER = True  # the package itself may be impossible to import
sys.path.insert(0, str(REPO))
for _m in ("numpy", "scipy.special", "scipy.spatial", "h5py", "matplotlib.pyplot", "pyvista", "vtk", "rich", "tqdm", "pandas"):
    try:  # third-party modules, once for all the forked workers
        importlib.import_module(_m)
    except ImportError:
        pass

PROP, LEVEL = "C34", "model_checking"
ASSUMPTIONS = ["third-party modules are already loaded, except in the runs made in fresh interpreters (one per module)",
               "a fresh process is represented by forgetting every module of the package; bound to real fresh interpreters by the single-import runs"]


def scratch():
    return os.environ.get("MC_SCRATCH", "/tmp")


def modules():
    root = os.path.join(str(REPO), "cfdtools")
    out = []
    for r, ds, fs in os.walk(root):
        ds[:] = [d for d in ds if d != "__pycache__"]
        for f in fs:
            if f.endswith(".py") and f != "__main__.py":
                rel = os.path.relpath(os.path.join(r, f), str(REPO))[:-3].replace(os.sep, ".")
                out.append(rel[:-9] if rel.endswith(".__init__") else rel)
    return sorted(out)


def bounds(tier):
    n = len(modules())
    return f"all sequences of {2 if tier == 'quick' else 3} first imports among the {n} modules, then all others; each module alone in a fresh interpreter"


def cases(tier, seed):
    ms = modules()
    return [("fresh", m, None) for m in ms] + [("seq", m, k) for m in ms for k in ([None] if tier == "quick" else ms)]


def forget():
    for k in [k for k in sys.modules if k == "cfdtools" or k.startswith("cfdtools.")]:
        del sys.modules[k]
    logging.getLogger("cfdtools").handlers.clear()


def registry():
    api = sys.modules["cfdtools.api"]
    out = {}
    for name, d in api._fileformat_map.items():
        for k, v in d.items():
            if isinstance(v, type):
                require(getattr(sys.modules[v.__module__], v.__name__) is v, f"{name} {k}: stale class")
                v = f"{v.__module__}.{v.__name__}"
            out[name, k] = v
    return out


def smoke():
    import cfdtools.meshbase.simple as simple
    import cfdtools.ic3 as ic3
    p = os.path.join(scratch(), f"i{os.getpid()}.ic3")
    ic3.writerV3.writer(simple.Cube(1, 1, 2).export_mesh()).write_data(p)
    r = ic3.reader(p)
    r.read_data()
    m = r.export_mesh()
    require(m.nnode == 12, "mesh read")
    data = open(p, "rb").read()
    os.unlink(p)
    return data


def run(case, ctx):
    kind, first, second = case
    if kind == "fresh":
        env = dict(os.environ, PYTHONPATH=str(REPO))
        r = subprocess.run([sys.executable, "-c", f"import {first}"], env=env, cwd=scratch(), capture_output=True, text=True, timeout=120)
        require(r.returncode == 0, f"import {first} in a fresh interpreter: {r.stderr.strip().splitlines()[-1:]}")
        ctx.count("transitions")
        ctx.count("traces_validated_against_impl")
        ctx.state("fresh", first)
        return
    ms = modules()
    forget()
    for m in ms:
        importlib.import_module(m)
    ref, data = registry(), smoke()
    for seq in itertools.product([first], [second] if second else ms, *([ms] if second else [])):
        forget()
        for k, m in enumerate(seq):
            try:
                mod = importlib.import_module(m)
            except Exception as e:
                require(False, f"import {m} after {seq[:k]}: {type(e).__name__}: {e}")
            if "cfdtools.api" in sys.modules:
                for key, v in registry().items():
                    require(key[1] == "ext" or ref.get(key) == v or key in ref, f"{key} registered as {v} after {seq[:k + 1]}")
            ctx.count("transitions")
        for m in ms:
            importlib.import_module(m)
        got = registry()
        require(got == ref, f"after {seq}: registered formats {sorted(set(map(str, got.items())) ^ set(map(str, ref.items())))}")
        if not second:
            require(smoke() == data, f"after {seq}: the file written differs")
        ctx.state(seq)
        ctx.count("traces_validated_against_impl")
    ctx.sample({"first import": first})
