"""Engine fidelity: run the repository's own tests on the instrumented code
(no symbolic values: the hooks must be transparent)."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
os.chdir('/repo')
sys.path.insert(0, '/repo')
import torch  # noqa: E402,F401
from pyvc import instr  # noqa: E402
instr.PREFIXES = ('mmrazor', )
instr.install()
import pyvc.rt  # noqa: E402,F401
import pytest  # noqa: E402

sys.exit(pytest.main(['-q', '-p', 'no:cacheprovider', '--timeout=300',
                      '--continue-on-collection-errors',
                      '-o', 'junit_family=xunit2',
                      '--junitxml=' + sys.argv[1]] + sys.argv[2:]))
