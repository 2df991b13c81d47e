#!/bin/bash
# nothing to compile: verifies that the interpreter, the package and the reference tables are usable
cd "$(dirname "$0")" || exit 1
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "from mc import refmesh; print('reference faces checked:', refmesh.selftest())"
