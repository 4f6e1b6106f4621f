#!/bin/bash
# run.sh ID [--thorough] [--replay FILE]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 LC_ALL=C.UTF-8 TZ=UTC OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
if [ "$1" = --self-test ]; then exec /opt/venv/bin/python mc/selftest.py; fi
exec /opt/venv/bin/python mc/main.py "$@"
