#!/usr/bin/env python3
"""Nothing to build: the checks import /repo's working tree.  Confirm the tools are there."""
import os
import subprocess
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = subprocess.run([PY, "-c", "import sys; sys.path.insert(0, %r); from vlib import env; env.bootstrap(); import hypothesis; print('hypothesis', hypothesis.__version__)" % HERE])
sys.exit(r.returncode)
