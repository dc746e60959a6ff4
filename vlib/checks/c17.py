"""C17 dynamic simulations: trajectories solve the equations and carry the right names."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods, declare_q
from .. import dynamic_models

S = sloth()
M = mods()
SEC = [0, 0, 1, 0, 0, 0, 0]
VN = ["u", "v", "y", "yt", "x", "x1", "a", "tt", "z_0", "b"]
COEF = [-1.0, -0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 1.0]


def many_names(n):
    """n names, some of them beginnings of others"""
    return ["w%d" % i for i in range(n)] if n % 2 else (VN + ["w%d" % i for i in range(n)])[:n]


def term(draw, n, t, pars, smooth=True):
    i, j = draw(st.integers(1, n)), draw(st.integers(1, n))
    kinds = ["u", "u", "uu", "sin", "t", "cost", "gauss", "par", "one", "sqrt", "ratio"] + ([] if smooth else ["min", "max", "abs"])
    k = draw(st.sampled_from(kinds))
    q, c = ["q", i], ["n", draw(st.sampled_from(COEF))]
    tt = t
    body = {"u": q, "uu": ["mul", ["mul", q, ["q", j]], ["n", 0.25]], "sin": ["fn", "Sin", q], "t": tt, "cost": ["fn", "Cos", ["mul", tt, ["n", 2]]],
            "gauss": ["fn", "Exp", ["sub", ["n", 0], ["pow", q, 2]]], "one": ["pow", ["q", j], 2], "sqrt": ["fn", "Sqrt", ["add", ["pow", q, 2], ["n", 1]]],
            "ratio": ["div", q, ["add", ["pow", ["q", j], 2], ["n", 1.5]]], "min": ["min", q, ["n", 0.5]], "max": ["max", q, ["n", -0.25]],
            "abs": ["fn", "Abs", q], "par": ["mul", ["q", draw(st.sampled_from(pars))], q] if pars else q}[k]
    if k == "one":
        c = ["n", c[1] * 0.2]
    return draw(st.sampled_from([["mul", c, body], ["mul", body, c]]))


def odes(draw, smooth=True, max_n=4, min_n=1):
    """q[0] is time, q[1..n] the differential variables, then constants and parameters"""
    n = draw(st.integers(min_n, max_n))
    seconds = draw(st.booleans())
    names = draw(st.lists(st.sampled_from(VN), min_size=n, max_size=n, unique=True)) if max_n <= 4 else draw(st.permutations(many_names(n)))
    q = [{"k": "var", "n": "t", "d": SEC if seconds else ZERO, "s": False, "exp": None}]
    q += [{"k": "var", "n": nm, "d": ZERO, "s": False, "exp": None} for nm in names]
    pars = []
    for k in range(draw(st.integers(0, 2))):
        q.append({"k": draw(st.sampled_from(["par", "con"])), "n": "p%d" % k, "d": ZERO, "s": True, "exp": None, "v": draw(st.sampled_from(COEF))})
        pars.append(len(q) - 1)
    t = ["q", 0]
    if seconds:
        q.append({"k": "con", "n": "rate", "d": [-x for x in SEC], "s": True, "exp": None, "v": draw(st.sampled_from([0.5, 1.0, 2.0]))})
        t = ["mul", ["q", 0], ["q", len(q) - 1]]
    eqs = []
    for i in range(1, n + 1):
        if draw(st.integers(0, 7)) == 0:
            eqs.append({"v": i, "number": draw(st.sampled_from([0.0, 0.0, 1.0, -0.5, 2])), "r": None})
            if seconds:
                eqs[-1]["number"] = None
                eqs[-1]["r"] = ["q", len(q) - 1]
            continue
        r = term(draw, n, t, pars, smooth)
        for _ in range(draw(st.integers(0, 2))):
            r = [draw(st.sampled_from(["add", "sub"])), r, term(draw, n, t, pars, smooth)]
        if seconds:
            r = draw(st.sampled_from([["mul", ["q", len(q) - 1], r], ["mul", r, ["q", len(q) - 1]]]))
        eqs.append({"v": i, "r": r, "number": None})
    perm = lambda m: list(draw(st.permutations(range(m))))  # noqa
    return {"n": draw(st.sampled_from(["D0", "M", "t", "D 0", "T-1"])), "q": q, "nd": n, "eqs": [eqs[i] for i in perm(n)], "decl": perm(len(q)),
            "dom": [i + 1 for i in perm(n)], "y0": [draw(st.sampled_from([-1.5, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0])) for _ in range(n)], "ic": perm(n + 1)}


@st.composite
def strategy(draw, compiled, large=False):
    s = odes(draw, smooth=True, max_n=16, min_n=5) if large else odes(draw, smooth=draw(st.booleans()))
    compiled = draw(st.booleans()) if large else compiled
    s["compiled"] = compiled
    s["solver"] = draw(st.sampled_from(["ODEINT", "ODEINT", None, "CVODE"]))
    s["t0"] = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0]))
    s["span"] = draw(st.sampled_from([0.5, 1.0, 2.0, 1 / 3, 1.4142135]))
    s["steps"] = draw(st.sampled_from([1, 2, 7, 10, 13, 100, None]))
    s["times"] = draw(st.sampled_from([None, None, None, "uniform", "irregular", "late", "list"]))
    s["noend"] = draw(st.booleans())
    s["rename"] = draw(st.lists(st.integers(0, s["nd"]), unique=True, max_size=s["nd"] + 1))
    s["swap"] = draw(st.booleans())
    s["tname"] = draw(st.sampled_from(["default", "default", "list", "str", "confstr"]))
    s["miss"] = draw(st.sampled_from([None] * 12 + [0, 1]))
    s["again"] = draw(st.sampled_from([False, False, "reset", "fresh"]))
    s["form"] = draw(st.sampled_from(["bare"] * 12 + ["residual", "scaled", "plus", "swapped", "negative", "rhsdiff"]))
    s["print"] = draw(st.booleans())
    return s


def make_ode_model(s, extra=None):
    class Dyn(M.Model):
        def __init__(self, name, description=""):
            super().__init__(name, description)
            self.objs = [None] * len(s["q"])
            for i in s["decl"]:
                self.objs[i] = declare_q(self, s["q"][i])
            self.dom = S.Domain("domain", mk_unit(ZERO), self.objs[0], "domain")
            for i in s["dom"]:
                self.objs[i].distributeOnDomain(self.dom)

        def DeclareEquations(self):
            for k, e in enumerate(s["eqs"]):
                d = self.objs[e["v"]].Diff(self.objs[0])
                r = e["number"] if e["number"] is not None else build(e["r"], self.objs)
                form = s.get("form", "bare") if k == 0 else "bare"
                if form == "bare":
                    x = d == r
                elif form == "residual":
                    x = d - r
                elif form == "scaled":
                    x = (2.0 * d) == 2.0 * r if e["number"] is None else (2.0 * d) == 2.0 * e["number"]
                elif form == "plus":
                    u = self.objs[e["v"]]()
                    if s["q"][0]["d"] == SEC:
                        u = u * self.objs[-1]()
                    x = (u + d) == (u + r)
                elif form == "rhsdiff":
                    d2 = self.objs[s["eqs"][-1]["v"]].Diff(self.objs[0])
                    x = d == r + d2 if e["number"] is None else d == d2
                elif form == "swapped":
                    x = (r == d) if e["number"] is None else (d == r)
                else:
                    x = (-1.0 * d) == (-1.0 * r)
                self.createEquation("eq%d" % k, "", x)
            if extra:
                extra(self)
    m = Dyn(s["n"], "")
    m()
    return m


def reference(s, times):
    vals = [0.0] * len(s["q"])
    for i, q in enumerate(s["q"]):
        if "v" in q:
            vals[i] = q["v"]
    by = {e["v"]: e for e in s["eqs"]}

    def f(t, y):
        v = list(vals)
        v[0] = t
        v[1:len(y) + 1] = [float(x) for x in y]
        if max(abs(x) for x in v) > 1e4:
            raise OutOfDomain()
        return [by[i]["number"] if by[i]["number"] is not None else ev(by[i]["r"], v)[0] for i in range(1, len(y) + 1)]
    t0 = s["t0"]
    ts = [t for t in times if t > t0]
    Y = np.tile(np.array(s["y0"], dtype=float), (len(times), 1))
    if ts:
        sol = solve_ivp(f, (t0, ts[-1]), s["y0"], method="RK45", t_eval=ts, rtol=1e-8, atol=1e-10)
        if not sol.success:
            raise OutOfDomain()
        Y[len(times) - len(ts):] = sol.y.T
    return Y


def request_times(s):
    t0, span = s["t0"], s["span"]
    return {None: None, "uniform": np.linspace(t0, t0 + span, 6), "irregular": np.array([t0, t0 + 0.1 * span, t0 + 0.75 * span, t0 + span]),
            "late": np.array([t0 + 0.25 * span, t0 + 0.5 * span, t0 + span]), "list": [t0, t0 + 0.5 * span, t0 + span]}[s["times"]]


def body(case, rec):
    s = case
    nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
    n = s["nd"]
    times = request_times(s)
    steps = s["steps"] or 100
    expected_t = np.linspace(s["t0"], s["t0"] + s["span"], steps + 1) if times is None else np.array(times, dtype=float)
    try:
        Y = reference(s, expected_t)
    except (OutOfDomain, ArithmeticError, ValueError):
        return
    m = make_ode_model(s)
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.setTimeVariableName([nm[0]] if s["tname"] != "str" else nm[0])
    prob.resolve()
    init = [s["t0"]] + s["y0"]
    prob.setInitialConditions({nm[i]: init[i] for i in s["ic"] if i != s["miss"]})
    ren = {nm[i]: "Column %d" % i for i in s["rename"]}
    if s["swap"] and n >= 2:
        ren = {nm[1]: nm[2], nm[2]: nm[1]}
    col = {i: ren.get(nm[i], nm[i]) for i in range(n + 1)}
    kw = dict(initial_time=s["t0"], end_time=s["t0"] + s["span"], is_dynamic=True, domain=m.dom, compile_equations=s["compiled"],
              number_of_time_steps=s["steps"], output_headers=["T"] + ["c%d" % i for i in s["dom"]], variable_name_map=ren, differential_solver=s["solver"],
              print_output=s["print"])
    if times is not None:
        kw["times_for_solution"] = times
        if s["noend"]:
            del kw["end_time"]
    if s["tname"] == "list":
        kw["time_variable_name"] = [nm[0]]
    if s["tname"] == "confstr":
        kw["time_variable_name"] = nm[0]
    rec.label("form=" + s["form"], "solver=%s" % s["solver"], "times=%s" % s["times"])
    check(prob._getProblemType() == "differential", "the problem is typed %s", prob._getProblemType())

    def run():
        sim = M.Simulation("s", "", prob)
        sim.setConfigurations(**kw)
        sim.runSimulation(show_output_msg=s["print"])
        return sim

    def verify(sim, what):
        r = sim.getResults("dict")
        check(list(r) == [nm[0]], "results over %s", list(r))
        r = r[nm[0]]
        check(sorted(r) == sorted(col.values()), "%s: columns %s, expected %s", what, sorted(r), sorted(col.values()))
        t = np.array(r[col[0]], dtype=float)
        check(t.shape == expected_t.shape and np.allclose(t, expected_t, rtol=1e-10, atol=1e-10), "%s: times %s, asked for %s", what, t[:5], expected_t[:5])
        for i in range(1, n + 1):
            y = np.array(r[col[i]], dtype=float)
            dev = np.abs(y - Y[:, i - 1])
            lim = 2e-4 * (1 + np.max(np.abs(Y)))
            check(np.all(dev <= lim), "%s: %s (column %r) is %s, the solution is %s", what, nm[i], col[i], y[[0, -1]], Y[[0, -1], i - 1])
        L = sim.getResults("list")
        check(len(L) == 1 and L[0].shape == (len(t), n + 1), "list results of shape %s", [x.shape for x in L])
        tt, yy = sim.output
        check(np.allclose(np.array(tt, dtype=float), expected_t, rtol=1e-10, atol=1e-10), "output times")
        check(np.allclose(np.array(yy, dtype=float), L[0][:, 1:].astype(float)) , "the output and the registered values are ordered differently")
        check(sim.getStatus() == 0, "status %s", sim.getStatus())
        if s["print"]:
            sim.showResults()

    if s["miss"] is not None:
        # an initial condition is missing
        try:
            sim = run()
        except Exception:  # noqa: any refusal will do
            rec.label("refused_no_initial_condition")
            return
        raise Violation("a problem without initial condition for %s was simulated" % nm[s["miss"]])
    if s["form"] not in ("bare",):
        try:
            sim = run()
        except Exception:  # noqa: refusing an unsupported form is allowed, a wrong answer is not
            rec.label("form_refused")
            return
    else:
        sim = run()
    verify(sim, "first run")
    if s["again"] == "reset":
        sim.reset()
        sim = run()
        verify(sim, "run after reset")
    elif s["again"] == "fresh":
        m2 = make_ode_model(s)
        p2 = M.Problem("p", "")
        p2.addModels(m2)
        p2.setTimeVariableName([nm[0]])
        p2.resolve()
        p2.setInitialConditions({nm[i]: init[i] for i in s["ic"]})
        prob, kw = p2, dict(kw, domain=m2.dom)
        sim = M.Simulation("s", "", prob)
        sim.setConfigurations(**kw)
        sim.runSimulation(show_output_msg=False)
        verify(sim, "second problem")
    rec.nt(n >= 2)


@st.composite
def failing_strategy(draw):
    kind = draw(st.sampled_from(["blow", "steps"]))
    c = {"kind": kind, "compiled": draw(st.booleans()), "k": draw(st.sampled_from([0.5, 1.0, 2.0, 4.0])), "y0": draw(st.sampled_from([0.5, 1.0, 1.5, 2.0])), "n": draw(st.sampled_from([2, 6, 20, 100])),
         "solver": draw(st.sampled_from(["ODEINT", "ODEINT", None])), "times": draw(st.booleans()), "before": draw(st.booleans())}
    if kind == "blow":
        # the solution ceases to exist at 1/(k*y0)
        c["rel"] = draw(st.sampled_from([0.5, 0.9, 1.25, 2.0, 3.0, 10.0]))
    else:
        c["mxstep"], c["span"] = draw(st.sampled_from([1, 2, 5, 12, 40, 500])), draw(st.sampled_from([0.01, 1.0, 7.0, 40.0]))
    return c


def failing_body(case, rec):
    """integrations that come to an end before the time asked for"""
    k, y0 = case["k"], case["y0"]
    blow = case["kind"] == "blow"
    end = case["rel"] / (k * y0) if blow else case["span"]

    class Dyn(M.Model):
        def DeclareVariables(self):
            self.t = self.createVariable("t", mk_unit(ZERO), "")
            self.y = [self.createVariable("y%d" % i, mk_unit(ZERO), "") for i in range(1 if blow else 2)]
            self.dom = S.Domain("domain", mk_unit(ZERO), self.t, "")
            for y in self.y:
                y.distributeOnDomain(self.dom)

        def DeclareEquations(self):
            d = [y.Diff(self.t) for y in self.y]
            if blow:
                self.createEquation("e0", "", d[0] == k * self.y[0]() ** 2)
            else:
                self.createEquation("e0", "", d[0] == k * self.y[1]())
                self.createEquation("e1", "", d[1] == -k * self.y[0]())
    m = Dyn("D", "")
    m()
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.resolve()
    names = ["y%d_D" % i for i in range(len(m.y))]
    init = dict(zip(names, [y0, 0.0]))
    prob.setInitialConditions({"t_D": 0.0, **init})
    prob.setTimeVariableName("t_D")
    sim = M.Simulation("s", "", prob)
    conf = dict(is_dynamic=True, domain=m.dom, time_variable_name="t_D", compile_equations=case["compiled"], differential_solver=case["solver"])
    if case["before"]:
        # a run that ends well, first
        sim.setConfigurations(end_time=0.01 / (k * y0), number_of_time_steps=2, **conf)
        sim.runSimulation(show_output_msg=False)
        sim.reset()
    T = np.linspace(0.0, end, case["n"] + 1)
    if case["times"]:
        conf["times_for_solution"] = T[1:].tolist() if case["n"] > 2 else T
    if not blow:
        conf["configuration_args"] = {"mxstep": case["mxstep"]}
    sim.setConfigurations(end_time=end, number_of_time_steps=case["n"], **conf)
    try:
        sim.runSimulation(show_output_msg=False)
    except Exception:  # noqa: any refusal will do
        check(not blow or end * k * y0 > 1, "the solution exists until %r, it was not found until %r", 1 / (k * y0), end)
        check(blow or case["mxstep"] < 500, "an oscillation of %d periods was not integrated", end * k)
        check(sim.output is None and sim.getStatus() != 0, "a failed integration leaves a result, status %r", sim.getStatus())
        left = {n: len(f) for n, f in (m.dom.values or {}).items()}
        check(not any(left.values()), "a failed integration leaves registered values: %s", left)
        rec.label("refused", case["kind"])
        rec.nt(True)
        return
    check(not blow or end * k * y0 < 1, "the solution ends at %r; a trajectory was reported until %r", 1 / (k * y0), end)
    r = sim.getResults("dict")["t_D"]
    t = np.array(r["t_D"], dtype=float)
    want = [y0 / (1 - k * y0 * t)] if blow else [y0 * np.cos(k * t), -y0 * np.sin(k * t)]
    for n, w in zip(names, want):
        dev = np.abs(np.array(r[n], dtype=float) - w) / (1 + np.abs(w) ** 2)
        check(np.all(dev <= 1e-3), "%s is %s, the solution is %s", n, r[n][:5], w[:5])
    rec.label("solved", case["kind"])


SUBS = [
    Sub("interpreted", lambda: strategy(False), body, 400, 3000,
        "random systems of 1 to 4 ordinary differential equations evaluated symbolically, in random orders of equations, declarations and "
        "distribution on the domain, against an independent integration; non-trivial: two or more equations", shards=4),
    Sub("failing", failing_strategy, failing_body, 36, 600,
        "equations whose solution ends before the time asked for, and integrations of few steps: an error and no result, or the solution; non-trivial: refused"),
    Sub("compiled", lambda: strategy(True), body, 250, 2000,
        "the same with compiled equations; non-trivial: two or more equations", shards=4),
    Sub("large", lambda: strategy(False, large=True), body, 48, 700,
        "systems of 5 to 16 equations, compiled or evaluated symbolically; non-trivial: two or more equations", shards=4),
    Sub("models", lambda: dynamic_models.run_strategy(False), dynamic_models.run_body, 60, 900,
        "two or three independent models of ordinary differential equations, each with its own time variable, in one problem; run and run again after a "
        "reset; non-trivial: three or more unknowns", shards=3),
]
ASSUMPTIONS = ["trajectories are compared with an independent integration within 2e-4 of their size, over short horizons of non-chaotic systems",
               "assimulo is not installed here: CVODE runs on a stand-in with its documented contract"]
