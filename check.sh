#!/bin/bash
# check.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--cases N] [--shards N]
# Runs one monitor against /repo's working tree (imported through the project's own interpreter).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
PY=${VERIF_PYTHON:-/opt/venv-pypy/bin/python}
exec "$PY" -W ignore -m vmon.run "$@"
