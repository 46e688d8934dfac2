#!/bin/bash
# bash run.sh ID [args]: runs the monitors of one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export MPLBACKEND=agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m monitors "$@"
