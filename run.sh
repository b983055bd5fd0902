#!/bin/bash
# run.sh ID [--tier quick|thorough] [--replay FILE]: one check, against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export LANG=C.UTF-8 PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export NUMBA_DISABLE_CUDA=1 MPLBACKEND=Agg
scratch=$(mktemp -d /tmp/mcrun.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR="$scratch/mpl" TMPDIR="$scratch"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python -W ignore -m mc.main "$@"
exit $?
