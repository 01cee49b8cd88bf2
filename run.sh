#!/bin/bash
# run.sh ID [quick|thorough]   run one check against /repo's current tree
# run.sh --replay FILE         replay a reported counterexample
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_CACHE_DIR=/tmp/verif_numba
cd "$here" || exit 2
exec /opt/venv/bin/python lib/runner.py "$@"
