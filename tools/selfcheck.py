#!/opt/venv/bin/python
"""Nothing to build: checks that the interpreter has TensorFlow and z3."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot  # noqa: E402

x = boot.z3.Int('x')
s = boot.z3.Solver()
s.add(x > 1, x < 3)
assert s.check() == boot.z3.sat
assert boot.tf1.__version__
print('ok', boot.z3.get_version_string(), boot.np.__version__)
