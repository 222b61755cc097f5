#!/bin/sh
# Nothing to build: checks that the interpreter, /repo and Hypothesis import.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, "/repo")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import forecaster, hypothesis
print("ok: hypothesis", hypothesis.__version__)
'
