#!/usr/bin/env python3
"""Entry point of every check: run.py <PROPERTY> [--replay FILE] [--jobs N].

Re-executes itself with a pinned environment and interpreter, so that a run is a
function of the code in /repo, VERIF_SEED and VERIF_TIER alone.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'

PINNED = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONUTF8': '1',
    'PYTHONWARNINGS': 'ignore',
    'TZ': 'UTC',
    'COLUMNS': '80',
}


def main():
    if os.environ.get('_VERIF_PINNED') != '1':
        env = {
            key: value
            for key, value in os.environ.items()
            if not key.startswith(('MARSH_', 'PYTHON', 'OC_'))
        }
        env.update(PINNED)
        env['_VERIF_PINNED'] = '1'
        python = PYTHON if os.access(PYTHON, os.X_OK) else sys.executable
        os.execve(python, [python, '-s', os.path.abspath(__file__), *sys.argv[1:]], env)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    # hypothesis comes from the verification venv: appended, so that the tree's own
    # dependencies win.
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from vlib import core
    sys.exit(core.main(sys.argv[1:], here=HERE, repo=REPO))


if __name__ == '__main__':
    main()
