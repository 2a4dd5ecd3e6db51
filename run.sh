#!/bin/bash
# usage: bash run.sh <property> quick|thorough   |   bash run.sh <property> replay <artefact>
cd "$(dirname "$(realpath "$0")")" || exit 2
export PATH=/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 MPLBACKEND=Agg PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export NUMBA_NUM_THREADS=1 PYTHONWARNINGS=ignore ASTROPY_SKIP_CONFIG_UPDATE=1
export MPLCONFIGDIR="${MPLCONFIGDIR:-$(mktemp -d)}"
export PYTHONPATH="${MISFIT_REPO:-/repo}:$PWD"
trap 'case "$MPLCONFIGDIR" in /tmp/tmp.*) rm -rf "$MPLCONFIGDIR";; esac' EXIT
/opt/venv/bin/python -c '
import sys, mc
sys.exit(mc.main(sys.argv[1:]))' "$@"
