#!/bin/sh
# Nothing to build: the checks import /repo's working tree on every run. Sanity check only.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import sys; sys.path.insert(0, '.'); import vf.engine, vf.simmpi, vf.run"
mkdir -p evidence out
echo ok
