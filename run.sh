#!/bin/bash
# bash run.sh PROPERTY [...]: runs one check against /repo's working tree
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python check.py "$@"
