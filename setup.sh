#!/bin/bash
# Nothing to install: the checks run the Python code of /repo as it is.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replay work
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "import mc.engine, mc.meta"
