#!/bin/sh
# Nothing to compile: checks that the interpreter and the package sources are there.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec "$PY" -B -m dst one C02 0 --log 0
