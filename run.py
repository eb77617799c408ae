#!/usr/bin/env python3
"""run.py C01 [quick|thorough] [n=CASES] | run.py replay FILE"""
import os
import sys

PY = '/opt/venv/bin/python'
if os.path.realpath(sys.executable) != os.path.realpath(PY) or os.environ.get('PYTHONHASHSEED') != '0' \
        or sys.prefix != '/opt/venv':
    if os.path.exists(PY):
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        if os.environ.get('VERIF_REEXEC') != '1':
            os.environ['VERIF_REEXEC'] = '1'
            os.execv(PY, [PY, '-B', os.path.abspath(__file__)] + sys.argv[1:])
os.environ.pop('VERIF_REEXEC', None)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('PDFMAJOR_REPO', '/repo'))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
from vlib import harness

if __name__ == '__main__':
    if sys.argv[1] == 'selftest':
        from vlib import selftest
        sys.exit(selftest.main())
    if sys.argv[1] == 'replay':
        sys.exit(harness.replay(sys.argv[2]))
    sys.exit(harness.main(sys.argv[1], sys.argv[2:]))
