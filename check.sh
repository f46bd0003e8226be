#!/bin/bash
# usage: check.sh C01 [thorough]     (runs from /verif against /repo's working tree)
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONHASHSEED=0
if [ "$2" = thorough ]; then export VERIF_TIER=thorough; fi
exec /opt/venv/bin/python -m dv.run "$1"
