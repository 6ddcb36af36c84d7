#!/bin/bash
# usage: run.sh <PROPERTY-ID> [--tier quick|thorough]      or: run.sh --replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export GEMV_REPO="${GEMV_REPO:-/repo}"
export PYTHONPATH="$GEMV_REPO/src:$PWD"
export MPLCONFIGDIR="${TMPDIR:-/tmp}/gemv-mpl"
PY=/opt/venv/bin/python
exec "$PY" -W ignore -m gemv.main "$@"
