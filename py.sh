#!/bin/bash
# Runs a Python file or module with the environment of the checks (development helper).
. /opt/vp/lib/env.sh
export PYTHONPATH=/verif:/repo PYTHONWARNINGS=ignore
exec /opt/venv/bin/python "$@"
