#!/usr/bin/env python3
"""Development tool (no check uses it): mutation testing of the checks.

mutate.py list                      number of mutants per file
mutate.py run N SEED [FILE...]      N random mutants in parallel, results in /tmp/mut/results.jsonl
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time
from multiprocessing import Pool, current_process

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
S = "src/sloth/"
MAP = {
    "core/unit.py": "C01 C02 C08 C22 C03 C04", "core/quantity.py": "C08 C04 C10 C27 C25 C07 C17", "core/constant.py": "C08 C04 C10 C11 C14", "core/parameter.py": "C08 C04 C10 C27 C11",
    "core/variable.py": "C08 C10 C19 C17 C11 C05", "core/domain.py": "C19 C17 C18 C26 C25", "core/equation.py": "C09 C05 C06 C04 C11 C18 C17 C12 C25 C02",
    "core/equation_block.py": "C18 C12 C15 C17 C14", "core/equation_operators.py": "C03 C02 C04 C06 C05 C07 C09",
    "core/error_definitions.py": "C02 C08 C10 C13", "core/expression_evaluation.py": "C04 C02 C05 C06 C07 C09 C25", "core/property_package.py": "C24 C23 C25",
    "analysis.py": "C14 C22 C15", "connection.py": "C13 C12 C25", "model.py": "C10 C11 C13 C12 C23 C25 C22 C27", "problem.py": "C12 C13 C15 C17 C25 C27 C14 C20",
    "simulation.py": "C20 C22 C15 C16 C17 C14 C27 C26 C21 C18", "solvers.py": "C15 C16 C17 C18 C22 C20 C14", "optimization.py": "C21", "plotter.py": "C26",
    "unit_op_library.py": "C23 C25", "core/template_units.py": "C01 C23",
}


def mutants(rel):
    src = open(os.path.join(REPO, S, rel)).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    raw = src.encode()
    out = []

    def pos(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def add(n, new, what):
        a, b = pos(n)
        out.append({"file": rel, "line": n.lineno, "a": a, "b": b, "new": new, "what": what + ": " + raw[a:b].decode()[:80].replace("\n", " ") + "  =>  " + new[:80]})

    CMP = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        body = fn.body
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                    continue
                if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
                        continue
                    add(n, "pass", "delete")
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for o in CMP.get(type(n.ops[0]), []):
                        add(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "compare")
                if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant,)) or (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str) and type(n.op) in BIN):
                    add(n, "%s %s %s" % (seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
                if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    add(n, str(not n.value), "bool")
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                    add(n, repr(n.value + 1), "number")
                    if n.value == 1:
                        add(n, "0", "number")
                elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in ("lhs", "rhs", "input", "output", "inlets", "outlets", "linear", "nonlinear", "differential", "residual", "elementary"):
                    other = {"lhs": "rhs", "rhs": "lhs", "input": "output", "output": "input", "inlets": "outlets", "outlets": "inlets", "linear": "nonlinear", "nonlinear": "linear", "differential": "nonlinear",
                             "residual": "elementary", "elementary": "residual"}[n.value]
                    add(n, repr(other), "string")
                if isinstance(n, (ast.If, ast.IfExp)):
                    add(n.test, "not (%s)" % seg(n.test), "negate")
                if isinstance(n, ast.BoolOp):
                    o = " or " if isinstance(n.op, ast.And) else " and "
                    add(n, o.join("(%s)" % seg(v) for v in n.values), "boolop")
                    for k in range(len(n.values)):
                        vs = [v for i, v in enumerate(n.values) if i != k]
                        add(n, (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for v in vs), "drop")
                if isinstance(n, ast.Return) and n.value is not None:
                    add(n, "return None", "return")
                if isinstance(n, ast.ListComp) and n.generators[0].ifs:
                    c = n.generators[0].ifs[0]
                    add(c, "True", "filter")
                if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", "")) in ("deepcopy", "copy", "list", "dict", "OrderedDict", "sorted") and len(n.args) == 1 and not n.keywords:
                    add(n, "(%s)" % seg(n.args[0]), "uncopy")
                if isinstance(n, ast.Dict) and n.keys and all(k is None for k in n.keys):
                    add(n, "{%s}" % ", ".join("**(%s)" % seg(v) for v in reversed(n.values)), "merge")
    seen, res = set(), []
    for m in out:
        k = (m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            res.append(m)
    return res


def apply(wt, m):
    p = os.path.join(wt, S, m["file"])
    raw = open(os.path.join(REPO, S, m["file"]), "rb").read()
    new = raw[:m["a"]] + m["new"].encode() + raw[m["b"]:]
    try:
        compile(new, p, "exec")
    except SyntaxError:
        return False
    open(p, "wb").write(new)
    return True


ENVV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig")


def work(m):
    k = current_process()._identity[0]
    wt, vf = "/tmp/mut/r%d" % k, "/tmp/mut/v%d" % k
    if not os.path.isdir(wt):
        shutil.copytree(REPO, wt, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(VERIF, vf, ignore=shutil.ignore_patterns(".git", "evidence", "replays", "seeded"))
    if not apply(wt, m):
        return {**m, "result": "syntax"}
    try:
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests/test_constant.py", "tests/test_parameter.py", "tests/test_variable.py"],
                           cwd=wt, env=ENVV, capture_output=True, timeout=120)
        if t.returncode != 0:
            return {**m, "result": "tests"}
        t0 = time.time()
        errs = []
        for c in MAP[m["file"]].split():
            try:
                r = subprocess.run(["python3", "check.py", c], cwd=vf, env=dict(ENVV, VERIF_REPO=wt, VERIF_JOBS="1", VERIF_SCALE=os.environ.get("MUT_SCALE", "0.4")), capture_output=True, timeout=600, text=True)
            except subprocess.TimeoutExpired:
                errs.append(c + ":timeout")
                continue
            if r.returncode == 1:
                return {**m, "result": "killed", "by": c, "secs": round(time.time() - t0), "errs": errs}
            if r.returncode != 0:
                errs.append(c + ":%d" % r.returncode)
        return {**m, "result": "survived", "errs": errs, "secs": round(time.time() - t0)}
    finally:
        shutil.copy(os.path.join(REPO, S, m["file"]), os.path.join(wt, S, m["file"]))


if __name__ == "__main__":
    if sys.argv[1] == "list":
        for f in MAP:
            print(f, len(mutants(f)))
    else:
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        files = sys.argv[4:] or list(MAP)
        allm = [m for f in files for m in mutants(f)]
        random.Random(seed).shuffle(allm)
        done = set()
        rp = "/tmp/mut/results.jsonl"
        if os.path.exists(rp):
            done = {(d["file"], d["a"], d["b"], d["new"]) for d in map(json.loads, open(rp))}
        allm = [m for m in allm if (m["file"], m["a"], m["b"], m["new"]) not in done][:n]
        print(len(allm), "mutants", flush=True)
        with Pool(8) as p, open(rp, "a") as f:
            for r in p.imap_unordered(work, allm):
                f.write(json.dumps(r) + "\n")
                f.flush()
