"""C22 reports and tables show what the model, problem and results are."""
import contextlib
import io
import math

import sympy as sp
from hypothesis import strategies as st

from . import c17
from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa

S = sloth()
M = mods()
A = M.analysis
HEAD = ["Equation name", "Description", "Representation", "Variables", "Parameters", "Constants", "Equation type"]


def tables(text):
    """all the tables in a text: list of (header cells, rows)"""
    out, cur, rules = [], None, 0
    for ln in text.split("\n"):
        ln = ln.strip()
        if ln.startswith("+-") and ln.endswith("-+"):
            if cur is None:
                cur, rules = [], 1
            else:
                rules += 1
                if rules == 3:
                    out.append((cur[0] if cur else [], cur[1:]))
                    cur = None
        elif cur is not None and ln.startswith("|"):
            cur.append([c.strip() for c in ln[1:-1].split("|")])
    return out


def capture(fn):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        fn()
    return b.getvalue()


def cellset(c):
    return sorted(x.strip() for x in c.split(",") if x.strip())


# ------------------------------------------------------------------ models
@st.composite
def model_case(draw, name="M0"):
    b = Builder(draw, max_q=6, fns=True)
    eqs = []
    for k in range(draw(st.integers(1, 4))):
        d = draw(st.sampled_from(POOL))
        dd = None
        if draw(st.integers(0, 3)) == 0:
            dd = b.derivative(d)
            d = dim(dd, b.world)
        l = dd or b.expr(list(d), draw(st.integers(0, 3)))
        if l[0] == "n":
            l = b.leaf(d)
        r = b.expr(list(d), draw(st.integers(0, 2)))
        f = draw(st.sampled_from(["residual", "two", "number"]))
        if f == "number":
            r = ["n", draw(NUM)]
        if f == "residual":
            l, r = (["sub", l, r] if r[0] != "n" else ["sub", l, ["n", r[1]]]), ["n", 0.]
        eqs.append({"n": "eq%d" % k, "d": draw(st.sampled_from(["", "mass balance", "first, second", "x (y)"])), "l": l, "r": r, "f": f})
    for _ in range(draw(st.integers(0, 2))):
        b.new_q(ZERO)
    for q in b.world:
        q["exp"] = draw(st.sampled_from([None, None, "input", "output"])) if q["k"] == "var" else None
    return {"n": name, "q": b.world, "eqs": eqs, "mode": draw(st.booleans()), "order": list(draw(st.permutations(range(len(b.world)))))}


def mk(md):
    class User(M.Model):
        def __init__(self, name, description=""):
            super().__init__(name, description)
            self.objs = [None] * len(md["q"])
            if md["mode"]:
                self.decl()

        def decl(self):
            for i in md["order"]:
                q = md["q"][i]
                self.objs[i] = declare_q(self, q)
                if q["s"] and q["k"] == "var":
                    self.objs[i].setValue(q["v"])
            for i in md["order"]:
                t = md["q"][i].get("dom")
                if t is not None:
                    self.objs[i].distributeOnDomain(S.Domain("dom%d" % i, self.objs[t].units, self.objs[t], "domain"))

        def DeclareVariables(self):
            if not md["mode"]:
                self.decl()

        def DeclareEquations(self):
            for e in md["eqs"]:
                self.createEquation(e["n"], e["d"], equation_expr(e, self.objs))
    m = User(md["n"], "")
    m()
    return m


def check_report(md, tab, rec, eqtype):
    check(tab[0] == HEAD, "the table's header is %s", tab[0])
    rows = {r[0]: r for r in tab[1]}
    full = lambda i: md["q"][i]["n"] + "_" + md["n"]  # noqa
    check(sorted(r[0] for r in tab[1]) == sorted(e["n"] + "_" + md["n"] for e in md["eqs"]), "the report of a model with equations %s lists %s",
          [e["n"] for e in md["eqs"]], [r[0] for r in tab[1]])
    for e in md["eqs"]:
        r = rows[e["n"] + "_" + md["n"]]
        whole = ["sub", e["l"], e["r"]]
        what = "%s == %s" % (show(e["l"], md["q"]), show(e["r"], md["q"]))
        check(r[1] == e["d"], "equation %s is described as %r", what, r[1])
        used = syms(whole)
        for col, k, mark in ((3, "var", False), (4, "par", True), (5, "con", True)):
            want = sorted(full(i) + ("(*)" if mark and md["q"][i]["s"] else "") for i in used if md["q"][i]["k"] == k)
            got = cellset(r[col])
            if k == "var":
                got = [x.replace("(*)", "") for x in got]
            check(got == want, "equation %s: column %s shows %s instead of %s", what, HEAD[col], got, want)
        if has_diff(whole):
            check(r[6] == "differential", "equation %s is reported %s", what, r[6])
        elif all(plain_affine(e[x], md["q"]) for x in "lr") and not any(md["q"][i]["k"] != "var" and not md["q"][i]["s"] for i in used):
            check(r[6] == "linear", "equation %s is reported %s", what, r[6])
        check(r[6] == eqtype[e["n"] + "_" + md["n"]], "equation %s is reported %s, it is %s", what, r[6], eqtype[e["n"] + "_" + md["n"]])
        rec.label(r[6])
        if not has_diff(whole):
            # (names need not be identifiers: they are put aside while the text is read)
            odd = {full(i): "odd__%d__" % i for i in range(len(md["q"])) if not full(i).isidentifier()}
            text = r[2]
            for k in sorted(odd, key=len, reverse=True):
                text = text.replace(k, odd[k])
            loc = {full(i): sp.Symbol(full(i)) for i in range(len(md["q"]))}
            x = sp.sympify(text, locals={odd.get(k, k): v for k, v in loc.items()})
            names = {s.name for s in x.free_symbols}
            check(names <= {full(i) for i in used}, "equation %s is represented as %s", what, r[2])
            vals = [q["v"] for q in md["q"]]
            for k in range(2):
                try:
                    a, ea = ev(e["l"], vals)
                    b, eb = ev(e["r"], vals)
                except OutOfDomain:
                    continue
                got = complex(x.subs({loc[full(i)]: vals[i] for i in used}).evalf())
                # (decimals of a represented number can be rounded)
                check(abs(got - (a - b)) <= 1e-9 * (1 + abs(a) + abs(b)) + 1e6 * (ea + eb), "equation %s is represented as %s: %r instead of %r", what, r[2], got, a - b)
                vals = [v if q["s"] else v * 1.125 for v, q in zip(vals, md["q"])]


def body_model(case, rec):
    m = mk(case)
    types = {e.name: e.type for e in m.equations.values()}
    tabs = tables(str(A.Analysis().modelReport(m)))
    check(len(tabs) == 1, "the report of a model consists of %d tables", len(tabs))
    check_report(case, tabs[0], rec, types)
    # the other ways of asking for the same report
    for fn in (lambda: M.Simulation("s", "").report(m), m._infoModelReport_):
        check(tables(capture(fn)) == tabs, "the printed report of a model differs from the report of the model")
    i, o = m._infoInputOutputVariables(False)
    for got, k in ((i, "input"), (o, "output")):
        want = sorted(q["n"] + "_" + case["n"] for q in case["q"] if q["exp"] == k)
        check(sorted(got) == want, "the model reports %s variables %s, it exposes %s", k, got, want)
    out = capture(lambda: m._infoInputOutputVariables())
    for ln, got in (("Input var. names:", i), ("Output var. names:", o)):
        check((ln + str(got)).replace(" ", "") in out.replace(" ", ""), "the exposed variables are printed as %r, they are %s", out, got)
    # the numbers of objects and degrees of freedom
    df = []
    tabs = tables(capture(lambda: df.append(m._infoDegreesOfFreedom_())))
    num = {h: r for t in tabs for h, r in zip(t[0], t[1][0])}
    n = [len(case["eqs"])] + [sum(q["k"] == k for q in case["q"]) for k in ("var", "par")]
    check([num["Nb. " + k] for k in ("Equations", "Variables", "Parameters")] == [str(x) for x in n], "a model of %d equations, %d variables and %d parameters is shown with %s", *n, num)
    check([num["Nb. DF. " + k] for k in ("Design", "Control", "Chemical")] == [str(x) for x in df[0]], "the degrees of freedom %s are shown as %s", df[0], num)
    check(abs(df[0][0]) == abs(n[0] - n[1] - n[2]), "a model of %d equations, %d variables and %d parameters has %d degrees of freedom", *n, df[0][0])
    rec.nt(len(case["eqs"]) >= 2)


# ------------------------------------------------------------------ problems
def check_problem_report(text, s, prob, ms):
    first = text.strip().split("\n")[0]
    check(prob.name in first and prob._getProblemType() in first, "the report of problem %s (%s) begins with %r", prob.name, prob._getProblemType(), first)
    tabs = tables(text)
    check(len(tabs) == len(s["models"]), "the report of %d models has %d tables", len(s["models"]), len(tabs))
    want = {}
    for md, m in zip(s["models"], ms):
        want[md["n"]] = tables(str(A.Analysis().modelReport(m)))[0]
    heads = [ln.strip()[len("Model:"):].strip() for ln in text.split("\n") if ln.strip().startswith("Model:")]
    check(sorted(heads) == sorted(want), "the report names models %s", heads)
    for h, t in zip(heads, tabs):
        check(t == want[h], "the report shows another table under model %s", h)


def body_problem(case, rec):
    prob, ms = make_problem(case)
    prob.resolve()
    types = {e.name: e.type for e in prob.equation_block.equations}
    for md, m in zip(case["models"], ms):
        md2 = dict(md, eqs=[dict(e, d="") for e in md["eqs"]])
        t = tables(str(A.Analysis().modelReport(m)))[0]
        # connections into a model are equations of the model
        own = {e["n"] + "_" + md["n"] for e in md["eqs"]}
        nconn = sum(1 for c in case["conns"] if case["models"][c["to"]] is md)
        check(len(t[1]) == len(own) + nconn, "model %s with %d equations and %d connections reports %d equations", md["n"], len(own), nconn, len(t[1]))
        check_report(md2, (t[0], [r for r in t[1] if r[0] in own]), rec, types)
    text = A.Analysis().problemReport(prob)
    check_problem_report(text, case, prob, ms)
    out = capture(lambda: M.Simulation("s", "", prob).report(prob))
    check_problem_report(out, case, prob, ms)
    sim = M.Simulation("s", "", prob)
    # results
    sim.setConfigurations(linear_solver=["sympy", "symbolicsys"][len(case["models"]) % 2])
    before = sim.getStatus()
    check(before != 0, "a simulation that was not run reports status %r", before)
    try:
        out = capture(sim.runSimulation)
    except M.solvers.NumericalError if hasattr(M.solvers, "NumericalError") else S.err.NumericalError:
        rec.label("no_convergence")
        check(sim.getStatus() != 0, "a failed simulation reports status %r", sim.getStatus())
        return
    check(sim.getStatus() == 0, "a simulation that ended well reports status %r", sim.getStatus())
    check("ended sucessfully" in out or "ended successfully" in out, "a simulation that ended well is not reported as such")
    res = sim.getResults("dict")
    check(sim.getResults("list") == [float(v) for v in sim.output.values()], "the list of results differs from the results")
    (h, rows), = [t for t in tables(out) if t[0] == ["Equation", "Residual"]]
    check(sorted(r[0] for r in rows) == sorted(e.name for e in prob.equation_block.equations), "final residuals are shown for %s", [r[0] for r in rows])
    vals = {}
    for md in case["models"]:
        for q in md["q"]:
            n = q["n"] + "_" + md["n"]
            vals[n] = float(res[n]) if n in res else q["v"]
    mine = {}
    for md in case["models"]:
        v = [vals[q["n"] + "_" + md["n"]] for q in md["q"]]
        for e in md["eqs"]:
            a, b = ev(e["l"], v)[0], ev(e["r"], v)[0]
            mine[e["n"] + "_" + md["n"]] = (a - b, 1 + abs(a) + abs(b))
    for n, x in rows:
        x = float(x)
        if n in mine:
            check(abs(x - mine[n][0]) <= 1e-9 * mine[n][1], "final residual of %s is shown as %r, it is %r", n, x, mine[n][0])
        else:
            check(abs(x) < 1e-6, "final residual of %s is shown as %r", n, x)
    check_results_table(capture(sim.showResults), case, res, sim)
    rec.nt(len(case["models"]) >= 2 and len(rows) >= 3)
    rec.label("conns=%d" % len(case["conns"]))


def check_results_table(out, case, res, sim):
    (h, rows), = tables(out)
    check(h == ["Variable", "Unit", "Value"], "the results table's header is %s", h)
    want = {}
    for md in case["models"]:
        for q in md["q"]:
            want[q["n"] + "_" + md["n"]] = {k: float(x) for k, x in zip(DIMS, q["d"]) if x}
    check(sorted(r[0] for r in rows) == sorted(res), "results are shown for %s instead of %s", [r[0] for r in rows], sorted(res))
    for n, u, v in rows:
        check({z.split("^")[0]: float(z.split("^")[1]) for z in u.split()} == want[n], "the unit of %s is shown as %r instead of %r", n, u, want[n])
        check(abs(float(v) - float(res[n])) <= 1e-9 * (1 + abs(float(res[n]))), "%s is shown as %s, it is %r", n, v, res[n])


@st.composite
def problem_case(draw):
    s = draw(system(nonlinear=draw(st.booleans()), max_models=3, max_vars=3))
    return s


# ------------------------------------------------------------------ dynamic
@st.composite
def dynamic_case(draw):
    s = c17.odes(draw, max_n=3)
    s["t0"] = draw(st.sampled_from([0.0, 0.5]))
    s["span"] = draw(st.sampled_from([0.25, 0.5]))
    s["steps"] = draw(st.sampled_from([1, 3, 10]))
    s["headers"] = draw(st.booleans())
    s["print"] = draw(st.booleans())
    return s


def body_dynamic(case, rec):
    import numpy as np
    s = case
    nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
    times = np.linspace(s["t0"], s["t0"] + s["span"], s["steps"] + 1)
    try:
        c17.reference(s, times)
    except (OutOfDomain, ArithmeticError, ValueError):
        return
    m = c17.make_ode_model(s)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.setTimeVariableName(nm[0])
    prob.resolve()
    prob.setInitialConditions(dict(zip(nm, [s["t0"]] + s["y0"])))
    head = ["T"] + ["col %d" % i for i in range(s["nd"])]
    sim = M.Simulation("s", "", prob)
    kw = {"output_headers": head} if s["headers"] else {}
    sim.setConfigurations(initial_time=s["t0"], end_time=s["t0"] + s["span"], is_dynamic=True, domain=m.dom, number_of_time_steps=s["steps"],
                          print_output=s["print"], **kw)
    check(sim.getStatus() != 0, "a simulation that was not run reports status %r", sim.getStatus())
    printed = capture(sim.runSimulation)
    check(sim.getStatus() == 0, "a simulation that ended well reports status %r", sim.getStatus())
    (h, rows), = tables(capture(sim.showResults))
    if s["headers"]:
        check(h == head, "the table's header is %s", h)
    check(len(rows) == len(times), "%d rows are shown for %d times", len(rows), len(times))
    if s["print"]:
        check(tables(printed) == [(h, rows)], "the table printed after the run differs from the table of results")
    check(len(h) == 1 + s["nd"], "%d columns are shown for %d variables", len(h), s["nd"])
    t, Y = sim.output
    for k, r in enumerate(rows):
        check(abs(float(r[0]) - times[k]) < 1e-9, "row %d shows time %s", k, r[0])
        for j in range(s["nd"]):
            check(abs(float(r[1 + j]) - Y[k][j]) <= 1e-9 * (1 + abs(Y[k][j])), "row %d shows %s for %r", k, r[1 + j], Y[k][j])
    rec.nt(s["nd"] >= 2)


@st.composite
def exact_case(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "k": [draw(st.sampled_from([2, 3, 4, 5, 6, 8, 0.25, 10])) for _ in range(n)], "a": [draw(st.sampled_from([-2, 0.5, 1, 3])) for _ in range(n)],
            "kind": [draw(st.sampled_from(["square", "square", "affine", "log"])) for _ in range(n)]}


def body_exact(case, rec):
    """exact results of the symbolic solver are shown and listed as numbers"""
    m = M.Model("M", "")
    x = [m.createVariable("x%d" % i, mk_unit(ZERO), "") for i in range(case["n"])]
    for i, (k, a, kind) in enumerate(zip(case["k"], case["a"], case["kind"])):
        e = {"square": lambda: x[i]() ** 2 - k, "affine": lambda: a * x[i]() - k, "log": lambda: S.ops.Exp(x[i]()) - k}[kind if i else "square"]()
        m.createEquation("e%d" % i, "", e)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.resolve()
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations(nonlinear_solver="sympy")
    sim.runSimulation()
    res = sim.getResults("dict")
    (h, rows), = tables(capture(sim.showResults))
    check(sorted(r[0] for r in rows) == sorted(v.name for v in x) == sorted(res), "results are shown for %s", [r[0] for r in rows])
    shown = {r[0]: r[2] for r in rows}
    for i, (v, k, a, kind) in enumerate(zip(x, case["k"], case["a"], case["kind"])):
        want = {"square": math.sqrt(k), "affine": k / a, "log": math.log(k)}[kind if i else "square"]
        got = float(res[v.name])
        check(abs(abs(got) - want if kind == "square" or not i else got - want) < 1e-9 * (1 + abs(want)), "%s = %r, it should be %r", v.name, got, want)
        tab = complex(sp.sympify(shown[v.name]).evalf())
        check(abs(tab - got) < 1e-9 * (1 + abs(got)), "%s is shown as %s, it is %r", v.name, shown[v.name], got)
    check(sorted(sim.getResults("list")) == sorted(float(z) for z in res.values()), "the list of results differs from the results")
    rec.nt(case["n"] >= 2)


SUBS = [
    Sub("model", model_case, body_model, 350, 3500,
        "random models: each row of the report against the equation as written (name, description, value of the representation, objects "
        "by kind, mark of specified ones, type), printed variants, exposed variables; non-trivial: two equations", shards=3),
    Sub("problem", problem_case, body_problem, 200, 2000,
        "random problems: report per model, then simulated: status, final residuals, table of results; non-trivial: two models, three equations", shards=4),
    Sub("exact", exact_case, body_exact, 30, 300, "results of the symbolic solver (roots, logarithms): shown and listed; non-trivial: two unknowns"),
    Sub("dynamic", dynamic_case, body_dynamic, 60, 500, "dynamic problems: table of results, status; non-trivial: two variables", shards=2),
]
