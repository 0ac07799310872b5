#!/bin/bash
# Nothing to build: everything is Python. Checks that the interpreter and its libraries are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence replays
export SKLEARN_SITE_JOBLIB=1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys, numpy, pandas, sklearn, arpeggio, toolz
sys.path.insert(0, '.')
import dst.core, dst.runner, dst.gen
print('ok', sys.version)"
