#!/bin/bash
# usage: run_check.sh ID [quick|thorough] [--replay FILE]
# Runs the monitor of one property against the current working tree of /repo.
# Everything that is generated (bytecode, compiled kernels, temporary files)
# lives in a directory of this run only, so nothing stale is ever used.
ID="${1:?property id}"; shift
TIER="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) TIER="$1"; shift;; esac
HERE="$(cd "$(dirname "$0")" && pwd)"
export LANG=C.UTF-8 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
WORK="$(mktemp -d /tmp/vempymod.XXXXXX)" || exit 4
trap 'rm -rf "$WORK"' EXIT
mkdir "$WORK/pyc" "$WORK/numba" "$WORK/mpl" "$WORK/tmp"
export PYTHONPYCACHEPREFIX="$WORK/pyc" NUMBA_CACHE_DIR="$WORK/numba" MPLCONFIGDIR="$WORK/mpl" TMPDIR="$WORK/tmp" VWORK="$WORK"
unset PYTHONDONTWRITEBYTECODE NUMBA_DISABLE_JIT NUMBA_BOUNDSCHECK EMPYMOD_DATA
export PYTHONPATH="${VEMPY_REPO:-/repo}:$HERE"
export VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="$TIER"
cd "$WORK/tmp" || exit 4
/opt/venv/bin/python -W ignore -m vlib.run "$ID" --tier "$TIER" "$@"
exit $?
