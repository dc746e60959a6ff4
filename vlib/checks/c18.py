"""C18 compiled functions and DAE simulations agree with the equations of the block."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods, system, make_problem, solution
from .. import dynamic_models
from .c17 import odes, term, many_names, make_ode_model, request_times

S = sloth()
M = mods()


def dae_system(draw, large=False):
    """ODEs (q[1..n]) plus algebraic variables with a triangular explicit solution; returns a case"""
    n = draw(st.integers(3, 14) if large else st.integers(1, 3))
    na = draw(st.integers(1, 8) if large else st.integers(1, 3))
    seconds = draw(st.booleans())
    names = draw(st.lists(st.sampled_from(["u", "v", "y", "yt", "x", "x1", "x10", "a", "tt", "z_0", "b", "w", "h out", "q-r", "k,2"]), min_size=n + na, max_size=n + na, unique=True)) if not large else draw(st.permutations(many_names(n + na)))
    q = [{"k": "var", "n": "t", "d": [0, 0, 1, 0, 0, 0, 0] if seconds else ZERO, "s": False, "exp": None}]
    q += [{"k": "var", "n": nm, "d": ZERO, "s": False, "exp": None} for nm in names]
    pars = []
    for k in range(draw(st.integers(0, 1))):
        q.append({"k": draw(st.sampled_from(["par", "con"])), "n": "p%d" % k, "d": ZERO, "s": True, "exp": None, "v": draw(st.sampled_from([-1.0, -0.5, 0.5, 2.0]))})
        pars.append(len(q) - 1)
    t = ["q", 0]
    rate = None
    if seconds:
        q.append({"k": "con", "n": "rate", "d": [0, 0, -1, 0, 0, 0, 0], "s": True, "exp": None, "v": draw(st.sampled_from([0.5, 1.0, 2.0]))})
        rate = len(q) - 1
        t = ["mul", ["q", 0], ["q", rate]]
    N = n + na
    eqs = []
    for i in range(1, n + 1):
        r = term(draw, N, t, pars)
        for _ in range(draw(st.integers(0, 1))):
            r = [draw(st.sampled_from(["add", "sub"])), r, term(draw, N, t, pars)]
        if rate:
            r = ["mul", ["q", rate], r]
        eqs.append({"v": i, "r": r, "form": draw(st.sampled_from(["bare", "bare", "residual", "residual", "scaled", "negres", "plus", "paircoef"])), "diff": True})
    for i in range(n + 1, N + 1):
        g = term(draw, i - 1, t, pars)
        for _ in range(draw(st.integers(0, 1))):
            g = [draw(st.sampled_from(["add", "sub"])), g, term(draw, i - 1, t, pars)]
        eqs.append({"v": i, "r": g, "form": draw(st.sampled_from(["residual", "two", "swapped", "scaled", "cubic", "number"])), "diff": False})
    perm = lambda m: list(draw(st.permutations(range(m))))  # noqa
    return {"n": draw(st.sampled_from(["D0", "M", "t", "y", "D 0", "T-1"])), "q": q, "nd": n, "na": na, "rate": rate, "eqs": [eqs[i] for i in perm(N)], "decl": perm(len(q)),
            "dom": [i + 1 for i in perm(N)], "y0": [draw(st.sampled_from([-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0])) for _ in range(n)], "ic": perm(N + 1)}


def make_dae_model(s):
    def fill(m):
        for k, e in enumerate(s["eqs"]):
            o = m.objs[e["v"]]
            r = build(e["r"], m.objs)
            f = e["form"]
            if e["diff"]:
                d = o.Diff(m.objs[0])
                u = o() if s["rate"] is None else o() * m.objs[s["rate"]]()
                x = {"bare": lambda: d == r, "residual": lambda: d - r, "scaled": lambda: 2.0 * d - 2.0 * r, "negres": lambda: r - d,
                     "plus": lambda: u + d - (u + r), "paircoef": lambda: d * 0.5 == 0.5 * r}[f]()
            else:
                z = o()
                x = {"residual": lambda: z - r, "two": lambda: z == r, "swapped": lambda: r == z, "scaled": lambda: 3.0 * r - 3.0 * z,
                     "cubic": lambda: z ** 3 + z == r ** 3 + r, "number": lambda: (z - r) == 0.}[f]()
            m.createEquation("eq%d" % k, "", x)
    return make_ode_model({**s, "eqs": []}, extra=fill)


def evaluator(s):
    vals = [q.get("v", 0.0) for q in s["q"]]
    alg = sorted((e for e in s["eqs"] if not e["diff"]), key=lambda e: e["v"])
    dif = {e["v"]: e for e in s["eqs"] if e["diff"]}

    def full(t, y):
        v = list(vals)
        v[0] = t
        v[1:len(y) + 1] = [float(x) for x in y]
        for e in alg:
            v[e["v"]] = ev(e["r"], v)[0]
        if max(abs(x) for x in v) > 50:
            raise OutOfDomain()
        return v
    return full, lambda v: [ev(dif[i]["r"], v)[0] for i in range(1, s["nd"] + 1)]


@st.composite
def strategy_dae(draw):
    s = dae_system(draw)
    s["t0"] = draw(st.sampled_from([0.0, 0.0, 0.5]))
    s["span"] = draw(st.sampled_from([0.5, 1.0, 0.3]))
    s["steps"] = draw(st.sampled_from([1, 2, 10, 20, None]))
    s["again"] = draw(st.sampled_from([None, None, "reset", "append"]))
    s["print"] = draw(st.booleans())
    s["noend"] = draw(st.booleans())
    s["rename"] = draw(st.lists(st.integers(0, s["nd"] + s["na"]), unique=True, max_size=3))
    s["tname"] = draw(st.sampled_from(["default", "str"]))
    s["off"] = draw(st.sampled_from([0.0, 0.01]))
    s["times"] = draw(st.sampled_from([None, None, None, "uniform", "irregular", "late", "list"]))
    return s


@st.composite
def strategy_large(draw):
    return dae_system(draw, large=True)


def body_dae(case, rec):
    s = case
    N = s["nd"] + s["na"]
    nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
    full, rhs = evaluator(s)
    times = request_times(s)
    ts = np.linspace(s["t0"], s["t0"] + s["span"], (s["steps"] or 1) + 1) if times is None else np.array(times, dtype=float)
    try:
        sol = solve_ivp(lambda t, y: rhs(full(t, y)), (s["t0"], ts[-1]), s["y0"], method="RK45", t_eval=ts, rtol=1e-7, atol=1e-9)
        if not sol.success:
            return
        Y = np.array([full(t, y)[1:N + 1] for t, y in zip(ts, sol.y.T)])
        z0 = full(s["t0"], s["y0"])
        d0 = rhs(z0)
    except (OutOfDomain, ArithmeticError, ValueError):
        return
    m = make_dae_model(s)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.setTimeVariableName([nm[0]])
    prob.resolve()
    check(prob._getProblemType() == "differential-algebraic", "the problem is typed %s", prob._getProblemType())
    init = {nm[i]: v for i, v in enumerate([s["t0"]] + s["y0"] + [float(v) + s["off"] for v in z0[s["nd"] + 1:N + 1]])}
    ic = {nm[i]: init[nm[i]] for i in s["ic"]}
    ic.update({nm[i + 1] + "_d": float(v) for i, v in enumerate(d0)})
    prob.setInitialConditions(ic)
    ren = {nm[i]: "C%d" % i for i in s["rename"]}
    col = {i: ren.get(nm[i], nm[i]) for i in range(N + 1)}
    sim = M.Simulation("s", "", prob)
    kw = {"time_variable_name": nm[0]} if s["tname"] == "str" else {}
    kw.update(initial_time=s["t0"], end_time=s["t0"] + s["span"], number_of_time_steps=s["steps"])
    if times is not None:
        kw["times_for_solution"] = times
        if s["noend"]:
            del kw["end_time"]
    sim.setConfigurations(is_dynamic=True, domain=m.dom, output_headers=["T"] + ["c%d" % i for i in range(N)], variable_name_map=ren, print_output=s["print"], **kw)
    groups = {k: [e.name for e in v] for k, v in prob.equation_block._equation_groups.items()}
    try:
        sim.runSimulation(show_output_msg=False)
    except RuntimeError as e:
        if "standin" in str(e):
            # the stand-in integrator gave up: only an alarm when the residuals it was given are wrong
            check_residual(s, m, prob, full, rhs)
            rec.label("standin_gave_up")
            return
        raise
    check({k: [e.name for e in v] for k, v in prob.equation_block._equation_groups.items()} == groups, "the groups of equations were changed")
    r = sim.getResults("dict")[nm[0]]
    check(sorted(r) == sorted(col.values()), "columns %s, expected %s", sorted(r), sorted(col.values()))
    if s["steps"] is None and times is None:
        # the number of points is the solver's choice, from the initial to the end time
        own = np.array(r[col[0]], dtype=float)
        check(len(own) >= 2 and np.all(np.diff(own) > 0) and abs(own[0] - ts[0]) < 1e-10 and abs(own[-1] - ts[-1]) < 1e-10, "times %s from %s to %s", own, ts[0], ts[-1])
        sol = solve_ivp(lambda t, y: rhs(full(t, y)), (own[0], own[-1]), s["y0"], method="RK45", t_eval=own, rtol=1e-7, atol=1e-9)
        ts, Y = own, np.array([full(t, y)[1:N + 1] for t, y in zip(own, sol.y.T)])
    if s["again"]:
        # the same simulation once more, over the emptied domain or after what it holds
        if s["again"] == "reset":
            sim.reset()
        try:
            sim.runSimulation(show_output_msg=False)
        except RuntimeError as e:
            if "standin" not in str(e):
                raise
            return
        r = sim.getResults("dict")[nm[0]]
        if s["again"] == "append":
            ts, Y = np.concatenate([ts, ts]), np.concatenate([Y, Y])
        rec.label("again=" + s["again"])
        check(sorted(r) == sorted(col.values()), "run again: columns %s, expected %s", sorted(r), sorted(col.values()))
    check(len(r[col[0]]) == len(ts) and np.allclose(np.array(r[col[0]], dtype=float), ts, rtol=1e-10, atol=1e-10), "times %s", r[col[0]][:4])
    lim = 1e-3 * (1 + np.max(np.abs(Y)))
    for i in range(1, N + 1):
        y = np.array(r[col[i]], dtype=float)
        check(np.all(np.abs(y - Y[:, i - 1]) <= lim), "%s (column %r) is %s, the solution is %s", nm[i], col[i], y[[0, -1]], Y[[0, -1], i - 1])
    rec.label("times=%s" % s["times"], *["form=" + e["form"] for e in s["eqs"]])
    rec.nt(N >= 3)


def check_residual(s, m, prob, full, rhs, pts=((0.25, 0.5), (1.0, -0.5))):
    f = prob.equation_block._getEquationBlockAsFunction("residual", "rhs", "numpy")
    yd_map, y_map = prob.equation_block._getMapForRewriteSystemAsResidual()
    names = list(y_map)
    nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
    N = s["nd"] + s["na"]
    check(sorted(names) == sorted(nm[1:N + 1]), "the residual function is over %s, the unknowns are %s", names, nm[1:N + 1])
    k = 0
    for t, w in pts:
        y0 = [w + 0.25 * i for i in range(s["nd"])]
        try:
            v = full(t, y0)
            d = rhs(v)
        except (OutOfDomain, ArithmeticError, ValueError):
            continue
        dd = {nm[i + 1]: x for i, x in enumerate(d)}
        val = dict(zip(nm, v))
        yy = [val[x] for x in names]
        yd = [dd.get(x, 0.0) for x in names]
        res = np.array(f(t, yy, yd), dtype=float)
        check(res.shape == (N,), "%s residuals for %d equations", res.shape, N)
        big = 1 + max(abs(x) for x in v + d) ** 3
        check(np.all(np.abs(res) <= 1e-9 * big), "the residuals at a solution point are %s", res)
        # a point off the solution: each equation must react to its own unknown, by the amount of the equation
        for e_i, e in enumerate(s["eqs"]):
            nme = nm[e["v"]]
            if e["diff"]:
                yd2 = [x + (0.5 if n == nme else 0) for n, x in zip(names, yd)]
                r2 = np.array(f(t, yy, yd2), dtype=float)
                want = {"bare": 0.5, "residual": 0.5, "scaled": 1.0, "negres": -0.5, "plus": 0.5, "paircoef": 0.25}[e["form"]]
                exp = np.zeros(N)
                exp[e_i] = want
                check(np.all(np.abs(r2 - res - exp) <= 1e-9 * big), "derivative of %s + 0.5 changes the residuals by %s, expected %s", nme, r2 - res, exp)
        k += 1
    return k


def body_res(case, rec):
    s = case
    full, rhs = evaluator(s)
    m = make_dae_model(s)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.setTimeVariableName(["t_" + s["n"]])
    prob.resolve()
    dof = M.analysis.DOF_Analysis(prob)
    check(dof._dofTest() is True, "balanced DAE refused")
    k = check_residual(s, m, prob, full, rhs, pts=((0.25, 0.5), (1.0, -0.5), (0.0, 1.0), (-0.5, 0.25)))
    rec.nt(k >= 2 and s["nd"] + s["na"] >= 3)


@st.composite
def strategy_alg(draw):
    s = draw(system(nonlinear=draw(st.booleans()), max_models=3, max_vars=4))
    s["mech"] = draw(st.sampled_from(["numpy", "mpmath", "math"]))
    n = len(solution(s))
    s["off"] = draw(st.lists(st.integers(-8, 8).map(lambda k: k / 8.0), min_size=n, max_size=n))
    return s


def body_alg(case, rec):
    from ..systems import all_residuals
    prob, ms = make_problem(case)
    prob.resolve()
    b = prob.equation_block
    sol = solution(case)
    x = {k: v + o for (k, v), o in zip(sol.items(), case["off"])}
    names = [str(v) for v in b._var_list]
    check(sorted(names) == sorted(sol), "the function is over %s, the unknowns are %s", names, sorted(sol))
    try:
        ref = all_residuals(case, x)
    except OutOfDomain:
        return
    f = b._getEquationBlockAsFunction(compilation_mechanism=case["mech"])
    got = [float(v) for v in f([x[k] for k in names])]
    check(len(got) == len(ref), "%d residuals for %d equations", len(got), len(ref))
    # connections give in - out, equations left - right; the order is that of the block
    left = sorted(got)
    want = sorted(r[1] for r in ref)
    sc = max(r[3] for r in ref)
    for a, c in zip(left, want):
        check(abs(a - c) <= 1e-9 * sc ** 2 + 10 * max(r[2] for r in ref), "residuals %s, the equations give %s", left, want)
    for e, g in zip(b.equations, got):
        v = float(e.equation_expression.symbolic_object.subs(x)) if hasattr(e.equation_expression.symbolic_object, "subs") else float(e.equation_expression.symbolic_object)
        check(abs(v - g) <= 1e-9 * sc ** 2, "the residual in the place of %s is %r, its expression gives %r", e.name, g, v)
    rec.nt(len(got) >= 3)


SUBS = [
    Sub("dae_residual", strategy_dae, body_res, 250, 2500,
        "random semi-explicit DAE systems in random orders and forms of equation: the residual function vanishes at points of the solution manifold and reacts "
        "to each derivative in its own equation; non-trivial: three or more equations, two or more points", shards=5),
    Sub("large", strategy_large, body_res, 50, 700,
        "residual functions of systems of 4 to 22 equations, checked the same way; non-trivial: three or more equations, two or more points", shards=3),
    Sub("dae_trajectories", strategy_dae, body_dae, 120, 1200,
        "the same systems simulated (stand-in integrator) against an independent integration of the eliminated system; non-trivial: three or more equations", shards=6),
    Sub("dae_models", lambda: dynamic_models.run_strategy(True), dynamic_models.run_body, 50, 800,
        "two or three models of ordinary differential equations whose rates take variables of each other through connections (vars, lists, scaled "
        "expressions), simulated against an independent integration of the whole; non-trivial: three or more unknowns", shards=5),
    Sub("algebraic_function", strategy_alg, body_alg, 200, 2000,
        "random algebraic problems: the compiled block function gives the residuals of the equations, in their order, for the variables in theirs; "
        "non-trivial: three or more equations", shards=5),
]
ASSUMPTIONS = ["DAE systems are semi-explicit of index one with a known elimination; assimulo is not installed here: IDA runs on a stand-in with its documented contract"]
