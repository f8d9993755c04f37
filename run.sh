#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] [--only SUBTEST]
# Runs one property's generated-input search against the code in /repo's working tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYHIPP_SRC="${PYHIPP_SRC:-/repo/src}"
export PYTHONPATH="$PYHIPP_SRC:$here"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
id="$1"; shift
cd "$here"
exec /opt/venv/bin/python -m lib.runner "$id" "$@"
