#!/bin/bash
# Nothing is compiled: checks load /repo/phasor from source through the simulator's import hook.
# This only verifies that the interpreter, numpy/scipy and the simulator import here.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
mkdir -p evidence replays
exec /opt/venv/bin/python -c 'import numpy, scipy; from sim import boot; boot.load(); print("setup ok")'
