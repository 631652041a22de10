#!/bin/bash
# Nothing to build: the checks are Python and import the working tree of /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. /opt/venv/bin/python -c "import vmon.ref, numpy, scipy, casadi, matplotlib; print('ok')"
