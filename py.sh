#!/bin/sh
# the library's interpreter with a fixed environment
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="${VERIF_REPO:-/repo}"
exec /opt/venv/bin/python "$@"
