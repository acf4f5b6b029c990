#!/bin/bash
# Nothing to build: everything is Python. Verifies that the machinery and the code under
# test can be imported, and that the oracles detect planted errors in themselves.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
cd "$here" && exec "$PY" -m mon.selftest
