#!/bin/bash
# usage: ./check.sh <property> quick|thorough [--replay FILE]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent PYTHONHASHSEED=0
export TZ=UTC LANG=C.UTF-8 LC_ALL=C.UTF-8 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export PYTHONPATH=/repo
exec /opt/venv/bin/python -P mc/run.py "$@"
