#!/bin/bash
# Nothing to build: the checks load the code from /repo's working tree on every run.
cd "$(dirname "$0")" || exit 3
exec /opt/venv/bin/python -c '
import sys
sys.path.insert(0, ".")
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import torch, z3
print("z3", z3.get_version_string(), "torch", torch.__version__)'
