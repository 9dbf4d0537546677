#!/bin/bash
# Nothing to build: checks the interpreter and imports the framework.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
cd "$here" && PYTHONPATH="/repo:$here" "${WBX_PYTHON:-/opt/venv/bin/python}" -c 'import wbx.run, wbx.catalog'
