#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [family...]   |   check.sh PROPERTY replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 SYMPY_USE_CACHE=yes
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$VERIF_REPO:$PWD"
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m mc.main "$@"
