#!/bin/bash
# Usage: check.sh <PROPERTY> [quick|thorough] [--replay FILE]
# Runs the runtime monitor of one property against the working tree of /repo.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export WBX_REPO="${WBX_REPO:-/repo}"
export PYTHONPATH="$WBX_REPO:$here"
export PYTHONHASHSEED=0 JAX_PLATFORMS=cpu NO_GCE_CHECK=true HOME="${HOME:-/root}"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 TF_CPP_MIN_LOG_LEVEL=3
pid="$1"; shift
case "$1" in quick|thorough) export VERIF_TIER="$1"; shift;; esac
export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="${VERIF_SEED:-1}"
PY="${WBX_PYTHON:-/opt/venv/bin/python}"
cd "$here"
exec "$PY" -X faulthandler -m wbx.run "$pid" "$@"
