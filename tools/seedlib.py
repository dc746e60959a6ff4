#!/usr/bin/env python3
"""Development tool: makes, confirms and tries the planted bugs of /verif/seeded.

seedlib.py make  FILE.py [ID...]   write seeded/<ID> from the list BUGS of FILE.py after confirming each in a scratch copy
seedlib.py try   [ID...]           run the property's quick check against each planted bug (scratch copy), on several seeds
"""
import json
import os
import shutil
import subprocess
import sys
from multiprocessing import Pool

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig")
PY = "/opt/venv/bin/python"

COMMON = '''"""What the demonstration needs: the code of the working directory, and names for assimulo, which is not installed."""
import contextlib, io, os, sys, types, warnings
warnings.filterwarnings("ignore")
sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
ROOT = os.getcwd()
sys.path.insert(0, ROOT)
try:
    import assimulo.solvers  # noqa
except ImportError:
    a, p, s = types.ModuleType("assimulo"), types.ModuleType("assimulo.problem"), types.ModuleType("assimulo.solvers")
    class Explicit_Problem:
        def __init__(self, rhs, y0, t0=0.0, *a, **k):
            self.rhs, self.y0, self.t0 = rhs, y0, t0
    class Implicit_Problem:
        def __init__(self, res=None, y0=None, yd0=None, t0=0.0, name="", *a, **k):
            self.res, self.y0, self.yd0, self.t0 = res, y0, yd0, t0
    class CVode:
        def __init__(self, prob):
            self.p = prob
        def simulate(self, tfinal, ncp=0, ncp_list=None):
            import numpy as np
            from scipy.integrate import solve_ivp
            t = np.array(ncp_list, dtype=float)
            r = solve_ivp(lambda t, y: np.array([float(x) for x in self.p.rhs(t, y)]), (self.p.t0, t[-1]), [float(y) for y in self.p.y0], t_eval=t, rtol=1e-9, atol=1e-11)
            return list(r.t), r.y.T
    class IDA:
        def __init__(self, prob):
            self.p = prob
    p.Explicit_Problem, p.Implicit_Problem, s.CVode, s.IDA = Explicit_Problem, Implicit_Problem, CVode, IDA
    a.problem, a.solvers = p, s
    sys.modules.update({"assimulo": a, "assimulo.problem": p, "assimulo.solvers": s})
from src.sloth.core.template_units import *
from src.sloth.core.equation_operators import *
from src.sloth.core.unit import Unit
from src.sloth.core.variable import Variable
from src.sloth.core.parameter import Parameter
from src.sloth.core.constant import Constant
from src.sloth.core.equation import Equation
from src.sloth.core.domain import Domain
from src.sloth.model import Model
from src.sloth.problem import Problem
from src.sloth.simulation import Simulation
import numpy as np


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def refused(f, *a, **k):
    try:
        quiet(f, *a, **k)
    except Exception:
        return True
    return False
'''
SH = '''#!/bin/bash
# Exit 0 when the property holds in the working directory's code, nonzero otherwise.
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig}
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=300):
    return subprocess.run(cmd, cwd=cwd, env=ENVV, capture_output=True, text=True, timeout=timeout)


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "-s", "/repo", dst])


def tests(d):
    return sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/test_constant.py", "tests/test_parameter.py", "tests/test_variable.py"], d)


def original_lines(d, diff):
    """how many removed lines come from the first commit"""
    base = sh(["git", "log", "--format=%H", "--reverse"], d).stdout.split()[0]
    n, f, ln = 0, None, 0
    for row in diff.split("\n"):
        if row.startswith("--- a/"):
            f = row[6:]
        elif row.startswith("@@"):
            ln = int(row.split()[1].split(",")[0][1:])
        elif row.startswith("-") and not row.startswith("---"):
            b = sh(["git", "blame", "-s", "-l", "-L%d,%d" % (ln, ln), "HEAD", "--", f], d).stdout
            n += b.lstrip("^").startswith(base[:38]) and row[1:].strip() != ""
            ln += 1
        elif row.startswith(" "):
            ln += 1
    return n


def make(b):
    d = "/tmp/seed/make_" + b["id"]
    copy(d)
    try:
        out = os.path.join(SEEDED, b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/common.py", "w").write(COMMON)
        open(out + "/demo.py", "w").write("from common import *\n" + b["demo"].strip("\n") + "\n")
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(out + "/meta.json", "w"), indent=1)
        clean = sh(["bash", out + "/demo.sh"], d)
        for f, old, new in b["edits"]:
            p = os.path.join(d, "src/sloth", f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], "EDIT matches %d times in %s" % (s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        open(out + "/patch.diff", "w").write(diff)
        t = tests(d)
        dirty = sh(["bash", out + "/demo.sh"], d)
        msg = []
        if clean.returncode != 0:
            msg.append("CLEAN DEMO FAILS " + (clean.stdout + clean.stderr)[-700:])
        if dirty.returncode == 0:
            msg.append("PATCHED DEMO PASSES")
        if t.returncode != 0:
            msg.append("TESTS FAIL " + t.stdout[-300:])
        n = original_lines(d, diff)
        if n == 0:
            msg.append("NO ORIGINAL LINE CHANGED")
        return b["id"], "; ".join(msg) or "ok (%d original lines) %s" % (n, dirty.stderr.strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(a):
    i, seed = a
    d = "/tmp/seed/try_%s_%d" % (i, seed)
    copy(d)
    try:
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        r = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], d)
        if r.returncode:
            return i, seed, meta["property"], "patch does not apply: " + r.stderr[:200]
        v = "/tmp/seed/v_%s_%d" % (i, seed)
        shutil.rmtree(v, ignore_errors=True)
        shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded"))
        try:
            r = subprocess.run(["python3", "check.py", meta["property"]], cwd=v, env=dict(ENVV, VERIF_REPO=d, VERIF_SEED=str(seed), VERIF_JOBS="2"), capture_output=True, text=True, timeout=900)
        finally:
            shutil.rmtree(v, ignore_errors=True)
        line = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION") or x.startswith("OK")]
        return i, seed, meta["property"], "%d %s" % (r.returncode, (line or [r.stdout[-200:] + r.stderr[-300:]])[0][:160])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    os.makedirs("/tmp/seed", exist_ok=True)
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        bugs = [b for b in ns["BUGS"] if not sys.argv[3:] or b["id"] in sys.argv[3:]]
        with Pool(6) as p:
            for i, m in p.imap(make, bugs):
                print(i, m, flush=True)
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        seeds = [int(x) for x in os.environ.get("SEEDS", "1").split(",")]
        with Pool(5) as p:
            for r in p.imap_unordered(attempt, [(i, s) for i in ids for s in seeds]):
                print(*r, flush=True)
