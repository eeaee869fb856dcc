#!/bin/bash
# usage: bash run.sh <property id> [quick|thorough]     (cwd: /verif)
# The explored code is imported from /repo's working tree; nothing is cached between runs.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PWD"
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -W ignore -m mc.main "$@"
