#!/bin/bash
# run.sh PID [options]: run the check of one property against /repo's working tree (pure Python: nothing to build).
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH="$PWD:/repo"
exec /opt/venv/bin/python -m vf.main "$@"
