#!/bin/bash
# usage: run.sh <property> [--tier quick|thorough] [--replay file] [--only substring]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-/tmp/verif-mpl}"
exec /opt/venv/bin/python -B "$here/h/main.py" "$@"
