#!/bin/bash
# bash run.sh check C01 [quick|thorough]   |   bash run.sh replay FILE   |   bash run.sh selftest [IDS]
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PIP_NO_INDEX=1
export PYTHONHASHSEED=${PYTHONHASHSEED:-0}
export SSSPY_REPO=${SSSPY_REPO:-/repo}
cache=$(mktemp -d /tmp/ssspysim.XXXXXX) || exit 2
trap 'rm -rf "$cache"' EXIT
export PYTHONPYCACHEPREFIX=$cache/pyc SSSPY_SIM_TMP=$cache   # no stale .pyc is read, none is left in /repo
export PYTHONPATH=$SSSPY_REPO:$here
cd "$here" || exit 2
/opt/venv/bin/python -X faulthandler -m sim.main "$@"
