#!/bin/bash
# Nothing to build: the library is pure Python and is imported from /repo's working tree through the project's own
# virtualenv. This only verifies that the interpreter and the library's dependencies are there.
cd "$(dirname "$0")" || exit 2
PY=${VERIF_PYTHON:-/opt/venv-pypy/bin/python}
PYTHONDONTWRITEBYTECODE=1 "$PY" -W ignore -c 'import infi.instruct, infi.instruct.buffer, vmon.core; print("ready:", infi.instruct.__file__)'
