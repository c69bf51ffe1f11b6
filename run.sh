#!/bin/bash
# ./run.sh <property> [quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m mc "$@"
