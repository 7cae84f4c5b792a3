#!/bin/bash
# Nothing to build: the checks import the working tree of /repo. This confirms
# that the interpreter and the libraries they need are there.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${MC_REPO:-/repo}:$here" "$py" -c '
import xarray, dask, netCDF4, pandas, numpy, numba, yaml, distributed
import mc.engine, mc.world, mc.ref, mc.sched
print("ready")'
