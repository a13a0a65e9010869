#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; verify that what the checks import is installed."""
import os
import subprocess
import sys

PYTHON = '/opt/venv/bin/python'
CODE = '''
import sys
sys.path.insert(0, '/repo')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, omegaconf, yaml, marsh
print('hypothesis', hypothesis.__version__, 'marsh', marsh.__file__)
'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.run([PYTHON if os.access(PYTHON, os.X_OK) else sys.executable, '-s', '-c', CODE], env=env).returncode)
