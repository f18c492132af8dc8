#!/usr/bin/env python3
"""Nothing has to be built; make sure that what the checks need is there."""
import os
import subprocess
import sys

PY = '/opt/venv/bin/python'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ('evidence', 'replays'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
py = PY if os.path.exists(PY) else sys.executable
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
sys.exit(subprocess.call([py, '-c', 'import pandas, tables, numpy, sklearn; print("ready", pandas.__version__, tables.__version__)'], env=env))
