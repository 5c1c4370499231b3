#!/bin/bash
# Nothing to compile: the checks import the code from /repo. Verify the interpreter is there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo MPLBACKEND=Agg /opt/venv/bin/python -W ignore -c "import attitude, numpy, scipy, matplotlib" 
