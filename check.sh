#!/bin/bash
# usage: check.sh PID [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export MPLCONFIGDIR="$PWD/out/mpl"
mkdir -p "$MPLCONFIGDIR"
exec /opt/venv/bin/python -B mc/run.py "$@"
