#!/bin/bash
# Nothing to build: the checks import /repo's sources directly. This verifies
# that the interpreter and the Hypothesis copy the checks use are present.
cd "$(dirname "$0")" && exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import env
env.setup(); import hypothesis, numpy; env.import_qsonic()
print('ok', hypothesis.__version__, numpy.__version__)"
