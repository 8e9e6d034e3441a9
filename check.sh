#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
scratch=$(mktemp -d)
trap 'rm -rf -- "$scratch"' EXIT
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR="$scratch"
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER="${2:-quick}"
/opt/venv/bin/python -B -m mc.run "$1" "${2:-quick}"
