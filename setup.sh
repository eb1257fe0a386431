#!/bin/bash
# nothing to compile: check that the interpreter, the verifier and the code under test load
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" tools/selftest.py
