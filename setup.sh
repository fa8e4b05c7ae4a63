#!/bin/sh
# Nothing to build: the checks read /repo when they run. Verifies that the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import symx.core, symx.runner"
