#!/usr/bin/env python3
"""Nothing has to be built: verify that the interpreter, Hypothesis and the code under test are there."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.exists(PY) and sys.prefix != '/opt/venv' and not os.environ.get('_CBX_REEXEC'):
    os.environ['_CBX_REEXEC'] = '1'
    os.execv(PY, [PY, os.path.abspath(__file__)])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env  # noqa: E402
env.setup()
import hypothesis  # noqa: E402
import numpy  # noqa: E402
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'hypothesis', hypothesis.__version__)
