#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]  - runs one property's simulation campaign
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONHASHSEED=0 GIT_OPTIONAL_LOCKS=0 MPLCONFIGDIR="$(mktemp -d)" TZ=UTC
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
PROP="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
/opt/venv/bin/python -W ignore -m dsim check "$PROP" --tier "$TIER" --seed "${VERIF_SEED:-1}"
