#!/bin/bash
# Nothing to compile: checks that the interpreter and the working tree are usable.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
/opt/venv/bin/python - <<'PY'
import sys
sys.path.insert(0, "/repo")
import htmltools, sim.kernel, sim.shrink, sim.meta
print("htmltools", htmltools.__version__, htmltools.__file__)
PY
