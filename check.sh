#!/bin/bash
# ./check.sh PID [quick|thorough] [--replay FILE]
HERE=$(cd "$(dirname "$0")" && pwd)
PID=$1; TIER=${2:-quick}; shift; shift
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PIP_NO_INDEX=1
SCRATCH=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 3
export MC_SCRATCH="$SCRATCH" TMPDIR="$SCRATCH"
trap 'rm -rf "$SCRATCH"' EXIT
export PYTHONPYCACHEPREFIX="$SCRATCH/pyc" MPLCONFIGDIR="$SCRATCH/mpl" HOME="$SCRATCH/home"
mkdir -p "$HOME" "$SCRATCH/workspace"
printf 'workspace: %s\n' "$SCRATCH/workspace" > "$HOME/.pygmofwork"
export PYTHONPATH="${MC_REPO:-/repo}:$HERE"
cd "$SCRATCH" || exit 3
/opt/venv/bin/python -W ignore -m mc.main "$PID" --tier "$TIER" "$@"
exit $?
