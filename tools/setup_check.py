#!/usr/bin/env python3
"""Nothing to build: the checks are Python.  Make sure the pieces compile."""
import glob
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in glob.glob(os.path.join(HERE, 'mc', '*.py')) + [os.path.join(HERE, 'run.py')]:
    compile(open(f, encoding='utf-8').read(), f, 'exec')
for py in ('/opt/venv/bin/python', '/opt/venv-nolxml/bin/python'):
    if not os.path.exists(py):
        sys.exit('missing interpreter ' + py)
print('ok')
