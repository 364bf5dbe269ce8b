#!/bin/bash
# Nothing to build: the simulator is Python and runs /repo's working tree in place. Check that it can.
set -e
cd "$(dirname "${BASH_SOURCE[0]}")"
mkdir -p evidence replays
OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=${SSSPY_REPO:-/repo}:. /opt/venv/bin/python -c "import ssspy, sim.main, sim.engine, sim.world; print(ssspy.__file__)"
