#!/bin/sh
# nothing to compile: make sure the interpreter imports the package from /repo
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PYTHONPATH="${RV_REPO:-/repo}:$here" exec /opt/venv/bin/python -W ignore -c '
import gravity_toolkit, rv.core, rv.ref, rv.objs
print("gravity_toolkit from", gravity_toolkit.__file__)'
