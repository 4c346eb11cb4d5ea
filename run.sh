#!/bin/sh
# Runs the simulator: ./run.sh check C01 | ./run.sh replay FILE | ./run.sh digests C01,C02 SEED N WORKERS
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED="${VSIM_HASHSEED:-0}" PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1
exec /opt/venv/bin/python -m vsim "$@"
