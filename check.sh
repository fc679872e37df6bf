#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] ...
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vf.run "$@"
