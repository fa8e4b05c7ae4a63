#!/bin/sh
# check.sh <property> [quick|thorough] | check.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONUTF8=0 LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m symx.runner "$@"
