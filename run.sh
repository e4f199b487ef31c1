#!/bin/bash
# run.sh ID [--replay FILE]: runs one check against /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
unset PYTHONPATH PYTHONHOME PYTHONSTARTUP || true
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8 LANG=C.UTF-8
exec /opt/venv/bin/python -B -X utf8=0 "$here/run.py" "$@"
