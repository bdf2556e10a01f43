#!/bin/bash
# ./check.sh <PROPERTY> [quick|thorough] [--replay=FILE] [--unit=SUBSTR]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
id=$(echo "$1" | tr 'A-Z' 'a-z'); shift
mod=$(ls checks | grep "^${id}_.*\.py$" | head -1)
[ -n "$mod" ] || { echo "no check for $id"; exit 2; }
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); from mc import core; sys.exit(core.main('checks.${mod%.py}', sys.argv[1:]))" "$@"
