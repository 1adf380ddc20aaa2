#!/bin/bash
# Offline set-up: make sure hypothesis can be imported by /opt/venv's python.
cd "$(dirname "$0")" || exit 1
PY=/opt/venv/bin/python
mkdir -p evidence
if ! $PY -c 'import hypothesis' 2>/dev/null && [ ! -d /opt/veriftools/pyvenv/lib/python3.12/site-packages/hypothesis ]; then
  $PY -m pip install --no-index --find-links /opt/veriftools/wheels --target .deps hypothesis || exit 1
fi
$PY -c "
import sys; sys.path.insert(0,'.')
from harness import env; env.bootstrap(); env.check_origin(); import hypothesis; print('hypothesis', hypothesis.__version__)"
