#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay FILE] [--jobs N]
# Decides one property on the working tree of /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export MC_REPO="${MC_REPO:-/repo}"
export PYTHONPATH="$MC_REPO:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export HDF5_USE_FILE_LOCKING=FALSE TZ=UTC LC_ALL=C.UTF-8
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
exec "$py" -m mc.engine "$@"
