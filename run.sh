#!/bin/bash
# run.sh <property-id> [quick|thorough] [--replay FILE] : decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export PYTHONPYCACHEPREFIX=/nonexistent-pycache   # never trust stale byte code
exec /opt/venv/bin/python lib/main.py "$@"
