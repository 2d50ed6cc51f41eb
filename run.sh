#!/bin/bash
# The interpreter and environment every check and replay runs in.
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} PYTHONUNBUFFERED=1
unset PYTHONPATH
cd "$(dirname "$0")" || exit 2
exec /opt/venv/bin/python "$@"
