#!/bin/bash
# usage: mc/run.sh PROPERTY [quick|thorough] [--replay FILE]
cd "$(dirname "$0")/.." || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export MPLCONFIGDIR=/tmp/mpl-verif
exec /opt/venv/bin/python mc/run.py "$@"
