#!/bin/bash
# nothing to build: verify the interpreter and solver are there
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import sys; sys.path.insert(0, ".")
from symx import core
s = core.z3.Solver(); x = core.z3.Real("x"); s.add(x * x == 2); assert s.check() == core.z3.sat
print("z3", core.z3.get_version_string())'
