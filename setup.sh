#!/bin/sh
# Nothing to build: the checks are Python and import the code from /repo. See that the tools are here.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -B -c '
import sys
sys.path.insert(0, "harness")
import core
core.setup_path()
import numpy, scipy, hypothesis, bfit
print("ready: numpy", numpy.__version__, "scipy", scipy.__version__, "hypothesis", hypothesis.__version__)'
