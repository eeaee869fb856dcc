#!/bin/bash
# usage: bash replay.sh <replay file>     runs the one recorded case, without the explorer
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -W ignore -m mc.main --replay "$1"
