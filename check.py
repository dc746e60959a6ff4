#!/usr/bin/env python3
"""python3 check.py <PROPERTY> [--thorough] [--replay FILE] [--sub NAME]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line printed.
Anything else: an error of the harness itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {"PYTHONHASHSEED": "0", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
        "MKL_NUM_THREADS": "1", "NUMBA_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
        "MPLBACKEND": "Agg", "VERIF_REEXEC": "1"}

if os.environ.get("VERIF_REEXEC") != "1":
    env = dict(os.environ, **WANT)
    os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from vlib import runner  # noqa: E402

if len(sys.argv) < 2:
    print(__doc__)
    sys.exit(2)
sys.exit(runner.main(sys.argv[1].upper(), sys.argv[2:]))
