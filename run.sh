#!/bin/bash
# usage: run.sh <property> [--thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export BLOSC_NTHREADS=1 TZ=UTC
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec "${ZC_PYTHON:-/opt/venv/bin/python}" -m mc.runner "$@"
