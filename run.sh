#!/bin/bash
# ./run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] ...
# Runs the monitors of one property against the flowtracks sources in /repo.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="${VMON_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=1 BLOSC_NTHREADS=1
exec "${VMON_PYTHON:-/opt/venv/bin/python}" -W ignore -m vmon "$@"
