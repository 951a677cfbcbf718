#!/bin/bash
# Nothing to install: the checks use the Python, z3 and clang of the sandbox and build /repo into scratch folders.
cd "$(dirname "$0")" || exit 3
mkdir -p evidence
/opt/venv/bin/python - <<'P'
from vp.obl import z3
import numpy
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
P
command -v clang >/dev/null && command -v cmake >/dev/null
