#!/bin/sh
# Nothing to build: checks import /repo's working tree.  Verifies that the interpreters are there.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python -c "import numpy, scipy" || exit 1
/opt/venv/bin/python -c "import numpy, pandas" || exit 1
mkdir -p evidence replays
