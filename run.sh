#!/bin/bash
# run.sh C01: the check of one property against /repo's working tree
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore run_check.py "$@"
