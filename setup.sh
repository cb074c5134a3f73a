#!/bin/bash
# nothing to build: the checks run the Python code of /repo directly; this only verifies the tools
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -c '
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3, greenlet
print("z3", z3.get_version_string(), "greenlet", greenlet.__version__, "python", sys.version.split()[0])'
