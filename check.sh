#!/bin/bash
# usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE] [--facet NAME]
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="${DD_REPO:-/repo}:$(pwd)" DIFF_DIFF_BACKEND=python MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m harness.run "$@"
