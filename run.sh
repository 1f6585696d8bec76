#!/bin/bash
# ./run.sh <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/vt-no-pycache PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore PYTHONIOENCODING=utf-8:backslashreplace
unset PYTHONPATH
exec python3-vt -m vt.engine "$@"
