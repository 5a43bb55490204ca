#!/bin/bash
# Nothing to download or install: verifies that the interpreter, Hypothesis and the code load.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="/repo:/opt/vp/compat:$here"
cd "$here" || exit 3
exec /opt/venv/bin/python -c "
from vlib.boot import boot
boot()
import hypothesis, torch, reagent
print('ready: hypothesis', hypothesis.__version__, 'torch', torch.__version__)"
