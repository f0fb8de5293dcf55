"""Checks that what the framework runs on is there."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from pyvc import runner  # noqa: E402
runner.setup(True)
import z3  # noqa: E402
from pyvc import engine  # noqa: E402
x = z3.Int('x')
s = z3.Solver()
s.add(x > 3, x < 5, x != 4)
assert s.check() == z3.unsat
import mmrazor  # noqa: E402
for d in ('evidence', 'work', 'replays'):
    os.makedirs(os.path.join(HERE, d), exist_ok=True)
print('ready: z3', z3.get_version_string(), 'mmrazor', mmrazor.__version__,
      engine.__name__)
