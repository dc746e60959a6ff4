"""C16 nonlinear problems: a reported solution solves the equations."""
import numpy as np
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa
from .. import large

S = sloth()
M = mods()


@st.composite
def strategy(draw):
    s = draw(system(nonlinear=True, max_models=3, max_vars=3))
    s["guess"] = draw(st.sampled_from(["default", "near", "near", "far"]))
    s["polish"] = draw(st.sampled_from([None, None, None, "hybr", "", "anderson"]))
    s["solver"] = draw(st.sampled_from(["*", "*", None, "symbolicsys"]))
    n = len(solution(s))
    s["noise"] = draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n))
    return s


def solve(prob, sol, case):
    sim = M.Simulation("s", "", prob)
    kw = {"nonlinear_solver": case["solver"]}
    if case["guess"] != "default":
        f = 1e-4 if case["guess"] == "near" else 0.1
        kw["initial_guess"] = {k: v + f * z for (k, v), z in zip(sol.items(), case["noise"])}
    if case["polish"] is not None:
        kw["initial_guess_solver"] = case["polish"]
    sim.setConfigurations(**kw)
    sim.runSimulation(show_final_residuals=False)
    return sim


def body(case, rec):
    sol = solution(case)
    prob, ms = make_problem(case)
    prob.resolve()
    nl = prob._getProblemType() == "nonlinear"
    rec.label("guess=" + case["guess"], "polish=%s" % case["polish"], prob._getProblemType())
    try:
        sim = solve(prob, sol, case)
    except (ArithmeticError, ValueError):
        check(case["polish"] == "anderson", "an arithmetic error without a polisher that diverges")
        rec.label("diverged")
        return
    except S.err.NumericalError:
        check(case["guess"] != "near" or case["polish"] is not None, "no solution found from a point next to it: %s", sol)
        rec.label("not_converged")
        return
    r = {k: float(v) for k, v in sim.getResults("dict").items()}
    check(set(r) == set(sol), "results name %s, the unknowns are %s", sorted(r), sorted(sol))
    try:
        res = all_residuals(case, r)
    except OutOfDomain:
        rec.label("domain")
        return
    for n, v, err, sc in res:
        check(abs(v) <= 1e-4 * sc, "the reported solution leaves %r in %s (terms of size %r)", v, n, sc)
    if case["guess"] == "near" and case["polish"] is None:
        for k in sol:
            check(abs(r[k] - sol[k]) <= 0.05 * (1 + abs(sol[k])), "%s = %r, the solution next to the guess is %r", k, r[k], sol[k])
    rec.nt(nl and len(sol) >= 2)


@st.composite
def strategy_none(draw):
    """problems without any solution: an even function plus a positive number"""
    n = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(["square", "exp", "abs", "circle", "cos", "max"]))
    return {"n": n, "kind": kind, "gap": draw(st.sampled_from([0.25, 1.0, 5.0, 100.0])), "pos": draw(st.integers(0, n - 1)),
            "guess": draw(st.one_of(st.none(), eighths())), "polish": draw(st.sampled_from([None, None, "hybr", "anderson"])),
            "scale": draw(st.sampled_from([1, 1, 10, 0.1]))}


def body_none(case, rec):
    m = M.Model("M", "")
    x = [m.createVariable("x%d" % i, mk_unit(ZERO), "") for i in range(case["n"])]
    O, g, k = S.ops, case["gap"], case["kind"]
    for i in range(case["n"]):
        if i != case["pos"]:
            m.createEquation("e%d" % i, "", case["scale"] * x[i]() - x[case["pos"]]() * 0.5 - 1.0)
            continue
        y = x[i]()
        e = {"square": lambda: y ** 2 + g, "exp": lambda: O.Exp(y * 0.5) + g, "abs": lambda: O.Abs(y) + g, "circle": lambda: (y - 1) ** 2 + (y + 1) ** 2 - 2 + g,
             "cos": lambda: O.Cos(y) + 1 + g, "max": lambda: O.Max(y, 0.5) + g}[k]()
        m.createEquation("e%d" % i, "", case["scale"] * e)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.resolve()
    sim = M.Simulation("s", "", prob)
    kw = {"initial_guess_solver": case["polish"]}
    if case["guess"] is not None:
        kw["initial_guess"] = {v.name: case["guess"] for v in x}
    sim.setConfigurations(**kw)
    rec.label(k, "polish=%s" % case["polish"])
    rec.nt()
    try:
        sim.runSimulation(show_final_residuals=False)
    except (S.err.NumericalError, ArithmeticError, ValueError):
        check(sim.output is None, "results after failure")
        return
    raise Violation("a problem without solution (%s, gap %s) ended with %s" % (k, g * case["scale"], sim.getResults("dict")))


@st.composite
def strategy_roots(draw):
    """every unknown has two or three roots; the guess lies next to one of them"""
    n = draw(st.integers(1, 4))
    un = []
    for i in range(n):
        k = draw(st.integers(2, 3))
        r = [draw(st.integers(-6, 2))]
        while len(r) < k:
            r.append(r[-1] + draw(st.integers(2, 5)))
        un.append({"n": draw(st.sampled_from(["a", "z", "m", "x"])) + str(i), "roots": r, "pick": draw(st.integers(0, k - 1)), "noise": draw(st.integers(-20, 20)),
                   "couple": [[j, draw(st.sampled_from([0.125, -0.25, 0.0625]))] for j in range(i) if draw(st.booleans())], "lead": draw(st.sampled_from([1, 1, -2, 0.5])),
                   "scale": draw(st.sampled_from([1, 1, 1, 2.9e-7, 3.7e-6, 0.0123, 4321.5]))})
    return {"un": un, "order": list(draw(st.permutations(range(n)))), "decl": list(draw(st.permutations(range(n)))), "two": draw(st.booleans()),
            "solver": draw(st.sampled_from(["*", None, "symbolicsys"])), "extra": draw(st.booleans()), "guess": draw(st.integers(0, 4)) > 0}


def polynomial_problem(case):
    """the equation of unknown i: lead*(x_i - r1)(x_i - r2).. + sum c*(x_j - t_j) == 0, in one or two models"""
    un = case["un"]
    ms = [M.Model("M%d" % k, "") for k in range(2 if case["two"] and len(un) > 1 else 1)]
    x = [None] * len(un)
    for i in case["decl"]:
        x[i] = ms[i % len(ms)].createVariable(un[i]["n"], mk_unit(ZERO), "", is_exposed=True, type="output")
    for i in case["decl"]:
        u, e = un[i], None
        for r in u["roots"]:
            y = x[i]() - r if u["scale"] == 1 else x[i]() / u["scale"] - r
            e = y if e is None else e * y
        e = u["lead"] * e
        for j, c in u["couple"]:
            e = e + c * (x[j]() / un[j]["scale"] - un[j]["roots"][un[j]["pick"]])
        ms[i % len(ms)].createEquation("e%d" % i, "", e, check_equation=False)
    prob = M.Problem("p", "")
    prob.addModels(ms)
    prob.resolve()
    return prob, x


def target(case):
    return [u["roots"][u["pick"]] for u in case["un"]]


def body_roots(case, rec):
    prob, x = polynomial_problem(case)
    un, t = case["un"], target(case)
    g = {}
    for i in case["order"]:
        sep = min([abs(t[i] - r) for r in un[i]["roots"] if r != t[i]])
        g[x[i].name] = (t[i] + un[i]["noise"] / 100. * sep) * un[i]["scale"]
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations(nonlinear_solver=case["solver"], initial_guess=g)
    check(prob._getProblemType() == "nonlinear", "typed %s", prob._getProblemType())
    try:
        sim.runSimulation(show_final_residuals=False)
    except S.err.NumericalError:
        raise Violation("no solution found from %s, next to the root %s" % (g, t))
    r = sim.getResults("dict")
    for i, v in enumerate(x):
        check(abs(float(r[v.name]) / un[i]["scale"] - t[i]) <= 1e-5, "from the guess %s the root found is %s = %r, next to the guess is %r", g, v.name, float(r[v.name]), t[i] * un[i]["scale"])
    rec.label("n=%d" % len(un), "cubic" if any(len(u["roots"]) == 3 for u in un) else "quadratic")
    rec.nt(len(un) >= 2)


def body_exact(case, rec):
    """the symbolic solver"""
    prob, x = polynomial_problem(case)
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations(nonlinear_solver="sympy")
    sim.runSimulation(show_final_residuals=False)
    r = sim.getResults("dict")
    check(set(r) == {v.name for v in x}, "results name %s", sorted(r))
    un, t = case["un"], target(case)
    z = [complex(r[v.name]) / u["scale"] for v, u in zip(x, un)]
    for i, u in enumerate(un):
        p = sc = u["lead"]
        for q in u["roots"]:
            p, sc = p * (z[i] - q), abs(sc) * (abs(z[i]) + abs(q))
        for j, c in u["couple"]:
            p, sc = p + c * (z[j] - t[j]), sc + abs(c) * (abs(z[j]) + abs(t[j]))
        check(abs(p) <= 1e-8 * (1 + sc), "the exact solution %s leaves %r in the equation of %s", z, p, x[i].name)
    rec.label("n=%d" % len(un))
    rec.nt(len(un) >= 2)


@st.composite
def strategy_exact(draw):
    c = draw(strategy_roots())
    c["un"] = c["un"][:2]
    for i, u in enumerate(c["un"]):
        u["roots"] = u["roots"][:2] if i == 0 else u["roots"][:1] if draw(st.booleans()) else u["roots"][:2]
        u["pick"] = 0
        u["couple"] = [[j, k] for j, k in u["couple"]]
    c["decl"] = [i for i in c["decl"] if i < len(c["un"])]
    return c


@st.composite
def strategy_symbolic(draw):
    un = []
    for _ in range(draw(st.integers(1, 2))):
        real = sorted(draw(st.lists(st.integers(-12, 12), max_size=3, unique=True)))
        pairs = draw(st.lists(st.tuples(st.integers(-4, 4), st.integers(1, 6)), max_size=1)) if len(real) < 3 else []
        if not real and not pairs:
            pairs = [(draw(st.integers(-4, 4)), draw(st.integers(1, 6)))]
        un.append({"real": [r / 4. for r in real], "pairs": [[a / 2., b / 2.] for a, b in pairs], "lead": draw(st.sampled_from([1.0, 2.0, -0.5, 3]))})
    return {"un": un, "spread": draw(st.booleans()), "again": draw(st.booleans())}


def body_symbolic(case, rec):
    """polynomials with real and complex roots, by the symbolic solver: only real solutions are solutions"""
    m = M.Model("M", "")
    x = [m.createVariable("x%d" % i, mk_unit(ZERO), "") for i in range(len(case["un"]))]
    for v, u in zip(x, case["un"]):
        e = None
        co = np.array([1.0])
        for f in [[1.0, -r] for r in u["real"]] + [[1.0, -2 * a, a * a + b * b] for a, b in u["pairs"]]:
            co = np.polymul(co, f)
        for k, c in enumerate(co[::-1]):
            if c:
                term = float(c) * u["lead"] * v() ** k if k else float(c) * u["lead"]
                e = term if e is None else e + term
        m.createEquation("e" + v.name, "", e)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.resolve()
    solvable = all(u["real"] for u in case["un"])
    if prob._getProblemType() != "nonlinear":
        return
    sim = M.Simulation("s", "", prob)
    for _ in range(1 + case["again"]):
        sim.setConfigurations(nonlinear_solver="sympy")
        try:
            sim.runSimulation()
        except Exception:  # noqa: any error will do
            check(not solvable, "real solutions %s were not found", [u["real"] for u in case["un"]])
            check(sim.output is None and sim.getStatus() != 0, "a failed simulation leaves a result, status %r", sim.getStatus())
            rec.label("refused")
            continue
        check(solvable, "there is no real solution, %s is reported", sim.output)
        r, ls = sim.getResults("dict"), sim.getResults("list")
        sim.showResults()
        for v, u in zip(x, case["un"]):
            z = complex(r[v.name])
            check(z.imag == 0 and min(abs(z - q) for q in u["real"]) <= 1e-5, "%s is %r, the real roots are %s", v.name, r[v.name], u["real"])
        check(all(isinstance(z, float) for z in ls), "results %s", ls)
        rec.label("solved", "complex_too" if any(u["pairs"] for u in case["un"]) else "real")
    rec.nt(any(u["pairs"] or len(u["real"]) == 3 for u in case["un"]))


SUBS = [
    Sub("solution_solves", strategy, body, 250, 2500,
        "random nonlinear problems with a known solution, several starting points and root polishers: every reported solution "
        "satisfies every equation; a start next to the solution converges to it; non-trivial: nonlinear with two unknowns", shards=7),
    Sub("no_solution_raises", strategy_none, body_none, 120, 1200,
        "problems without any solution must end with an error and without results; non-trivial: all", shards=3),
    Sub("nearest_root", strategy_roots, body_roots, 150, 1500,
        "polynomial systems with two or three known roots per unknown, weakly coupled, of sizes from 1e-6 to 1e4: from a guess (given by name, in any order) within a fifth of the "
        "distance between roots, the solution found is the one next to the guess; non-trivial: two unknowns", shards=4),
    Sub("exact", strategy_exact, body_exact, 40, 400,
        "quadratic systems of one or two unknowns by the symbolic solver: the solution reported solves them; non-trivial: two unknowns", shards=4),
]
SUBS.append(Sub("large", lambda: large.strategy(True, 20), large.body(True), 48, 900,
                "well-conditioned cubic systems of 5 to 20 unknowns (and their copies) in 1 to 3 models joined by connections, from points next to the solution; "
                "non-trivial: more than ten unknowns", shards=4))
SUBS.append(Sub("symbolic", strategy_symbolic, body_symbolic, 50, 500,
                "polynomials of up to the fourth degree with real and complex roots by the symbolic solver: a real root is reported, or an error when there is none; non-trivial: complex or three real roots", shards=2))
ASSUMPTIONS = ["convergence is demanded only from starts within 1% of a regular solution"]
