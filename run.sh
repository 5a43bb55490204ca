#!/bin/bash
# usage: run.sh <PROPERTY> quick|thorough        run the check
#        run.sh <PROPERTY> replay <file>         re-run one saved case, no generator involved
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export PYTHONPATH="/repo:/repo/serving:/opt/vp/compat:$here"
export VERIF_HOME="$here"
cd "$here" || exit 3
exec /opt/venv/bin/python -m vlib.main "$@"
