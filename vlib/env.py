"""Bootstrap: put /repo on the path, append Hypothesis, stub what the sandbox lacks.

The code under test is always imported from REPO (default /repo) as ``src.sloth``.
"""
import os
import sys
import types
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP_SITE = ["/opt/veriftools/pyvenv/lib/python3.12/site-packages"]


def _wheel_fallback():
    """If the tooling venv is absent, take hypothesis straight from the wheelhouse."""
    import glob
    out = []
    for pat in ("hypothesis-*", "sortedcontainers-*", "attrs-*"):
        out += sorted(glob.glob("/opt/veriftools/wheels/" + pat + ".whl"))[-1:]
    return out


def bootstrap():
    warnings.filterwarnings("ignore")
    sys.dont_write_bytecode = True
    os.environ.setdefault("MPLBACKEND", "Agg")
    scratch = os.environ.get("VERIF_SCRATCH")
    if not scratch:
        scratch = tempfile.mkdtemp(prefix="verif_capy_")
        os.environ["VERIF_SCRATCH"] = scratch
        import atexit
        import shutil
        atexit.register(shutil.rmtree, scratch, ignore_errors=True)
    os.environ["MPLCONFIGDIR"] = scratch
    os.environ.setdefault("NUMBA_CACHE_DIR", scratch)
    os.chdir(scratch)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    for p in HYP_SITE:
        if os.path.isdir(p) and p not in sys.path:
            sys.path.append(p)
    try:
        import hypothesis  # noqa
    except ImportError:
        for p in _wheel_fallback():
            sys.path.append(p)
        import hypothesis  # noqa
    install_assimulo_stub()


def install_assimulo_stub():
    """assimulo is not installed here.  Give `solvers.py` the four names it imports.

    Explicit_Problem/Implicit_Problem only store what they are given; CVode and IDA
    are implemented over scipy (explicit: integrate.solve_ivp; implicit: BDF-like
    stepping by fsolve), see assimulo_standin.py.
    """
    try:
        import assimulo  # noqa
        if not getattr(assimulo, "__verif_stub__", False):
            return
    except ImportError:
        pass
    from . import assimulo_standin as st
    pkg = types.ModuleType("assimulo")
    pkg.__verif_stub__ = True
    pkg.__path__ = []
    prob = types.ModuleType("assimulo.problem")
    prob.Explicit_Problem = st.Explicit_Problem
    prob.Implicit_Problem = st.Implicit_Problem
    sol = types.ModuleType("assimulo.solvers")
    sol.CVode = st.CVode
    sol.IDA = st.IDA
    pkg.problem = prob
    pkg.solvers = sol
    sys.modules["assimulo"] = pkg
    sys.modules["assimulo.problem"] = prob
    sys.modules["assimulo.solvers"] = sol
