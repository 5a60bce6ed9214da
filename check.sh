#!/bin/sh
# check.sh PROPERTY quick|thorough
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python -B "$here/run.py" "$@"
