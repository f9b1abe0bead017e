#!/bin/bash
# Nothing to build: the checks import the code under test from /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONPATH="$PWD:/repo" PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
exec "$PY" -c 'import cmakelang.format.__main__, cmakelang.lint.__main__, cmakelang.annotate; print("ok")'
