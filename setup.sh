#!/bin/bash
# Nothing to compile: check that the interpreter and the code under test are importable.
set -e
cd "$(dirname "$0")"
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "/repo")
import numpy, pandas, scipy, sklearn, quantfinlib
assert quantfinlib.__file__.startswith("/repo/")
print("ok")
P
mkdir -p evidence
