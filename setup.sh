#!/bin/bash
# nothing to build: the checks import the code from /repo's working tree; this only proves that everything loads
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'PY'
from monitor import engine as E, registry
E.load_refs(); E.load_code()
print(len(E.REG), "reference functions,", len(registry.CHECKS), "checks")
PY
