#!/bin/bash
# bash /verif/run.sh PROPERTY quick|thorough [...]
# Runs one check on the sources in /repo. All files are written to a scratch
# directory, which is removed again, and to /verif/evidence.
set -u
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/zbcheck.XXXXXX)
trap 'rm -rf "$scratch"' EXIT
export TMPDIR="$scratch" HOME="$scratch" MPLCONFIGDIR="$scratch" MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export VERIF_TIER="$2"
cd "$scratch"
/opt/venv/bin/python -B "$here/mc/main.py" "$@"
