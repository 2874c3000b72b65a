#!/bin/bash
# usage: check.sh C01 [--tier quick|thorough] [-v] [--only harness] [--replay file]
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
PY=/opt/venv/bin/python
exec "$PY" -c 'import sys; sys.path.insert(0, "."); from symx import runner; rc = runner.main(); sys.stdout.flush(); import os; os._exit(rc)' "$@"
