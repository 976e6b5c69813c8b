#!/bin/bash
# run.sh PROP OUT.json [runner options]: environment of the real code
. /opt/vp/env.sh
export PYTHONPATH=/verif/rt:$PYTHONPATH OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
cd "${VERIF_SCRATCH:-/tmp}"
exec /opt/venv/bin/python /verif/rt/runner.py "$@"
