#!/bin/bash
# usage: bash run.sh <property> [--tier quick|thorough] [--replay FILE]
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
if [ -w /opt/venv/mplconfig ]; then export MPLCONFIGDIR=/opt/venv/mplconfig; fi
export PYTHONPATH=/repo:$here
cd "$here" || exit 2
exec /opt/venv/bin/python -m mc.main "$@"
