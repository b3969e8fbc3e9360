#!/bin/sh
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${VERIF_REPO:-/repo}" OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python harness/run.py "$1" "${2:-quick}"
