#!/bin/sh
# ./run.sh <property id> [--tier quick|thorough] [--replay FILE] [--only section[:case]]
here=$(cd "$(dirname "$0")" && pwd)
REPO=${RV_REPO:-/repo}
PY=/opt/venv/bin/python
mkdir -p "${TMPDIR:-/tmp}"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TZ=UTC
export MPLCONFIGDIR="${TMPDIR:-/tmp}/rv-mplconfig"; mkdir -p "$MPLCONFIGDIR"
export OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OPENBLAS_NUM_THREADS=${OPENBLAS_NUM_THREADS:-2}
export PYTHONPATH="$REPO:$here:$here/rv/stub"
exec "$PY" -W ignore "$here/rv/runner.py" "$@"
