#!/opt/venv/bin/python
"""Nothing to build: check that the interpreter, the package's dependencies and z3 are there."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import boot  # noqa: E402

z3 = boot.load_z3()
s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
import numpy, pyomo, sympy  # noqa: E402,E401

print("z3", z3.get_version_string(), "numpy", numpy.__version__, "sympy", sympy.__version__)
