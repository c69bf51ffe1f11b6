#!/bin/bash
# Nothing to build beyond /repo's own extensions; checks rebuild those themselves when their sources change.
cd "$(dirname "$0")" || exit 2
exec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "from mc import env; import tempfile; env.rebuild(env.make_env(tempfile.mkdtemp()))"
