#!/bin/bash
# usage: run.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONHASHSEED="${VERIF_SEED:-1}"
export VERIF_SEED="${VERIF_SEED:-1}"
[ -n "$2" ] && export VERIF_TIER="$2"
exec /opt/venv/bin/python -W ignore "checks/$(echo "$1" | tr 'A-Z' 'a-z').py"
