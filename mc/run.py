"""entry point:  python -m mc.run C01 [--tier quick|thorough] [--seed N] [--case I]"""
import argparse
import importlib
import os
import shutil
import sys
import tempfile
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--case", type=int, default=None)
    ap.add_argument("--nproc", type=int, default=None)
    a = ap.parse_args()
    again = os.environ.get("MC_SHIM")  # this process was replaced by itself (fsops.ensure)
    scratch = os.environ["MC_SCRATCH"] if again else tempfile.mkdtemp(prefix="mc-")
    os.environ["MC_SCRATCH"] = scratch
    pid = os.getpid()
    here = "/" if again else os.getcwd()
    try:
        os.chdir(scratch)
        from mc import core

        mod = importlib.import_module(f"mc.checks.{a.prop.lower()}")
        rc = core.main(mod, a.tier, a.seed, a.nproc, a.case)
    except BaseException:
        if os.getpid() != pid:
            os._exit(3)
        traceback.print_exc()
        rc = 2
    finally:
        if os.getpid() == pid:
            os.chdir(here)
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
