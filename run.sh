#!/bin/bash
# run.sh check ID quick|thorough | replay FILE | selftest
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
export PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
unset PYTHONPATH
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore vp/run.py "$@"
