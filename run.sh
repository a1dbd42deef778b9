#!/bin/bash
# usage: run.sh <property id> [quick|thorough]     or: run.sh --replay <file>
cd "$(dirname "$0")" || exit 3
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
unset PYTHONPYCACHEPREFIX
exec /opt/venv/bin/python -m pbt.run "$@"
