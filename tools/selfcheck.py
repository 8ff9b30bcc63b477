#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that what the checks import is there."""
import os
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
code = ("import sys; sys.path[:0]=['/repo', %r, %r]; import engine; engine.setup_imports(); import hypothesis, nilmtk; print('ok', hypothesis.__version__, nilmtk.__file__)"
        % (os.path.join(VERIF, 'harness', 'stubs'), os.path.join(VERIF, 'harness')))
sys.exit(subprocess.call(['/opt/venv/bin/python', '-B', '-W', 'ignore', '-c', code]))
