#!/bin/bash
# run.sh check C01 | replay FILE | selftest   (offline; reads /repo's working tree, writes only under /verif and a scratch folder)
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$PWD/sim/main.py" "$@"
