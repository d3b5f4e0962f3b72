#!/bin/bash
# usage: run.sh <property> quick|thorough      run a check
#        run.sh <property> replay <file>       re-run the shard recorded in a replay file
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_DISABLE_JIT=0
REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$REPO:$PWD"
SCRATCH="$(mktemp -d)"
export MPLCONFIGDIR="$SCRATCH" TMPDIR="$SCRATCH" XDG_CACHE_HOME="$SCRATCH"
/opt/venv/bin/python -m mc.core "$@"
rc=$?
rm -rf -- "$SCRATCH"
exit $rc
