#!/bin/bash
# check.sh ID | check.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
exec /opt/venv/bin/python "$here/harness/check.py" "$@"
