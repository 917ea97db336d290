#!/bin/bash
# Nothing to build: the package and the checks are plain Python.  Verify that both import.
cd "$(dirname "$0")" || exit 2
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec "$PY" -B -c '
import sys
sys.path.insert(0, "."); sys.path.insert(0, "/repo")
import dustmaker, mc.core
print("setup ok: dustmaker from", dustmaker.__file__)'
