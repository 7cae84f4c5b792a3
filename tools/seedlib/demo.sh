#!/bin/bash
# exit 0: the program does what the property says; nonzero: it does not
here="$(cd "$(dirname "$0")" && pwd)"
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=FALSE
export PYTHONPATH="$PWD:$here" OMP_NUM_THREADS=1
exec timeout 250 "$py" "$here/demo.py"
