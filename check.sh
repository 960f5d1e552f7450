#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--seed N]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m monitor "$@"
