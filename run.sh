#!/bin/bash
# bash run.sh ID quick|thorough [--replay FILE] [--only SCENARIO[:INDEX]] [-v]
# Builds what the check needs from /repo's working tree and runs the check. Exit 0 held, 1 violated, else no answer.
cd "$(dirname "$0")" || exit 2
ID=${1:?property} ; TIER=${2:-${VERIF_TIER:-quick}} ; shift 2
export VERIF_STARTED=$(date +%s.%N)
export LC_ALL=C.UTF-8 TZ=UTC PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
export VERIF_TIER=$TIER
mkdir -p evidence
PY=/opt/venv/bin/python
BUILT=$(PYTHONPATH= $PY lib/prepare.py "$ID") || { echo "$BUILT" | tail -n 60; echo "no answer: the build failed"; exit 2; }
eval "$BUILT"
export VERIF_CPP VERIF_TREE
export PYTHONPATH=/opt/vp/py3/compat:$VERIF_TREE
export LD_LIBRARY_PATH=/opt/vp/py3/lib:/opt/venv/lib
if [ -n "$VERIF_PRELOAD" ]; then
  export LD_PRELOAD=$VERIF_PRELOAD ASAN_OPTIONS=detect_leaks=0:exitcode=77:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
fi
exec $PY lib/runner.py "$ID" "$TIER" "$@"
