#!/bin/bash
# Nothing is built: confirm the interpreter, the solver and the engine import.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence" "$here/out"
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '$here/engine'); import core, npshim, loader; print('z3', core.z3.get_version_string())"
