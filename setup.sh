#!/bin/bash
# Nothing to build: the checks import the sources of /repo directly.
set -e
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
cd /tmp
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "import sys; sys.path.insert(0, '$here'); import numpy, scipy, netCDF4, mc.engine; print('ok')"
