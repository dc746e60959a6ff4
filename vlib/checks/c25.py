"""C25 models, problems, simulations and expressions do not interfere with each other."""
import copy
import importlib

from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa
from ..systems import connect
from . import c17

S = sloth()
M = mods()
L = importlib.import_module("src.sloth.unit_op_library")
PP = importlib.import_module("src.sloth.core.property_package").PropertyPackage


# ---- problems processed in turns -----------------------------------------------------------
@st.composite
def strategy_turns(draw):
    n = draw(st.integers(2, 3))
    nl = draw(st.integers(0, 2)) == 0
    cases = [draw(system(nonlinear=nl, max_models=2, max_vars=2))]
    for _ in range(n - 1):
        if draw(st.booleans()):
            # the same classes and names with other values
            import copy
            c = copy.deepcopy(cases[0])
            f = draw(st.sampled_from([0.5, 2.0, -1.0, 1.0]))
            c["shift"] = f
            cases.append(c)
        else:
            cases.append(draw(system(nonlinear=False, max_models=2, max_vars=2)))
    order = draw(st.permutations([i for i in range(n) for _ in range(5)]))
    return {"sys": cases, "order": list(order), "opts": [[draw(st.sampled_from(["default", "sympy", "symbolicsys", "scipy"])), draw(st.booleans())] for _ in range(n)]}


class Job:
    """one problem, processed a step at a time: models; problem; resolve; configure; run"""

    def __init__(self, sysd, opt):
        self.s, self.opt, self.step = sysd, opt, 0
        self.res = None

    def advance(self):
        s = self.s
        k, self.step = self.step, self.step + 1
        if k == 0:
            self.ms = [make_model(md) for md in s["models"]]
            if "shift" in s:
                # other right-hand sides: scale all specified quantities that are not coefficients is not possible
                # in general, so the equations decide (see verify)
                self.values = {}
                for m, md in zip(self.ms, s["models"]):
                    for o, q in zip(m.objs, md["q"]):
                        if q["s"]:
                            o.setValue(q["v"] * s["shift"])
                            q["v"] = q["v"] * s["shift"]
        elif k == 1:
            self.prob = M.Problem("prob", "")
            for i in s["add"]:
                self.prob.addModels(self.ms[i])
            for c in s["conns"]:
                connect(self.prob, self.ms, c)
        elif k == 2:
            self.prob.resolve()
        elif k == 3:
            self.sim = M.Simulation("sim", "", self.prob)
            kw = {} if self.opt[0] == "default" else {"linear_solver": self.opt[0]}
            if self.opt[1] and self.opt[0] in ("default", "symbolicsys"):
                kw["initial_guess"] = {k: v + 0.125 for k, v in solution(s).items()}
            self.sim.setConfigurations(**kw)
        else:
            try:
                self.sim.runSimulation()
                self.res = {k: float(v) for k, v in self.sim.getResults("dict").items()}
            except S.err.NumericalError:
                self.res = None

    def outcome(self):
        b = self.prob.equation_block
        return {"type": self.prob._getProblemType(), "equations": sorted(e.name for e in b.equations), "unknowns": sorted(map(str, b._var_list)),
                "models": sorted(self.prob.models), "connections": sorted(self.prob.connections), "exposed": sorted(
                    (k, o.name) for m in self.ms for k, v in m.exposed_vars.items() for o in v), "results": self.res}


def alone(sysd, opt):
    import copy
    j = Job(copy.deepcopy(sysd), opt)
    for _ in range(5):
        j.advance()
    return j


def norm(o):
    """names without the counters that number anonymous connections"""
    import re
    f = lambda x: re.sub(r"conn_.*?-->", "conn-->", re.sub(r"_?\d+", "", x)) if "conn_" in x else x  # noqa
    return {k: sorted(f(x) if isinstance(x, str) else x for x in v) if isinstance(v, list) else v for k, v in o.items() if k != "results"}


def body_turns(case, rec):
    import copy
    jobs = [Job(copy.deepcopy(s), o) for s, o in zip(case["sys"], case["opts"])]
    singular = False
    for i in case["order"]:
        try:
            jobs[i].advance()
        except Exception:
            # the same problem alone must fail the same way (for example singular after a change of values)
            try:
                alone(case["sys"][i], case["opts"][i])
            except Exception:  # noqa
                singular = True
                break
            raise
    if singular:
        rec.label("refused")
        return
    for k, (j, s) in enumerate(zip(jobs, case["sys"])):
        check(j.prob.equation_block is not None, "problem %d was not resolved", k)
        a = alone(s, case["opts"][k])
        x, y = norm(j.outcome()), norm(a.outcome())
        check(x == y, "problem %d of %d processed in turns becomes %s, alone it is %s", k, len(jobs), {q: x[q] for q in x if x[q] != y[q]}, {q: y[q] for q in x if x[q] != y[q]})
        check((j.res is None) == (a.res is None), "problem %d in turns: result %s, alone: %s", k, j.res, a.res)
        if j.res is not None:
            check(set(j.res) == set(a.res) and all(abs(j.res[n] - a.res[n]) <= 1e-6 * (1 + abs(a.res[n])) for n in j.res),
                  "problem %d in turns gives %s, alone %s", k, j.res, a.res)
            if "shift" not in s and a.res is not None and j.s["models"] and j.prob._getProblemType() == "linear":
                sol = solution(s)
                check(all(abs(j.res[n] - sol[n]) <= 1e-5 * (1 + abs(sol[n])) for n in sol), "problem %d in turns gives %s, the solution is %s", k, j.res, sol)
        check(len(j.prob.models) == len(j.ms) and all(j.prob.models[m.name] is m for m in j.ms), "the problem holds other models")
        # (a comparison with the problem alone does not see what both have got from a third)
        mine = [e for m in j.ms for e in m.equations.values()]
        check(all(any(v is e for e in mine) for v in j.prob.connections.values()), "problem %d holds connections of other models: %s", k, sorted(j.prob.connections))
        check(len(j.prob.equation_block.equations) == len(mine) and all(any(v is e for e in mine) for v in j.prob.equation_block.equations), "problem %d holds equations of other models", k)
    rec.label("same_names" if any("shift" in s for s in case["sys"]) else "different")
    rec.nt(case["order"] != sorted(case["order"]) and any(j.res for j in jobs))


# ---- dynamic problems in turns -------------------------------------------------------------
@st.composite
def strategy_dyn(draw):
    out = []
    a = c17.odes(draw, max_n=2)
    for k in range(2):
        s = a if k == 0 or draw(st.booleans()) else c17.odes(draw, max_n=2)
        s = copy.deepcopy(s)
        if k == 1 and draw(st.booleans()):
            # the same names, other numbers
            for q in s["q"]:
                if q["s"]:
                    q["v"] = q["v"] * -0.5
            for e in s["eqs"]:
                if e["number"] is None:
                    e["r"] = ["mul", e["r"], ["n", 0.5]]
        s.update(t0=0.0, span=draw(st.sampled_from([0.25, 0.5])), steps=draw(st.sampled_from([2, 5])), compiled=draw(st.sampled_from([False, False, True])),
                 y0=[draw(st.sampled_from([-1.0, 0.5, 1.0])) for _ in range(s["nd"])], rename=draw(st.booleans()))
        out.append(s)
    return {"sys": out, "order": list(draw(st.permutations([0, 0, 0, 1, 1, 1]))), "dict": draw(st.booleans())}


def body_dyn(case, rec):
    import numpy as np
    for s in case["sys"]:
        try:
            s["_t"] = [float(x) for x in np.linspace(0, s["span"], s["steps"] + 1)]
            s["_Y"] = c17.reference(s, s["_t"]).tolist()
        except (OutOfDomain, ArithmeticError, ValueError):
            return
    state = [{"k": 0}, {"k": 0}]
    mine = {}
    for i in case["order"]:
        s, x = case["sys"][i], state[i]
        nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
        if x["k"] == 0:
            x["m"] = c17.make_ode_model(s)
            x["p"] = M.Problem("p", "")
            x["p"].addModels(x["m"])
            x["p"].setTimeVariableName(nm[0])
        elif x["k"] == 1:
            x["p"].resolve()
            ic = dict(zip(nm, [0.0] + s["y0"]))
            if case["dict"]:
                # the user keeps one dictionary and changes it from problem to problem
                mine.clear()
                mine.update(ic)
                ic = mine
            x["p"].setInitialConditions(ic)
            x["s"] = M.Simulation("s", "", x["p"])
            kw = {"variable_name_map": {n: "Col " + n for n in nm}} if s["rename"] else {}
            x["s"].setConfigurations(initial_time=0.0, end_time=s["span"], is_dynamic=True, domain=x["m"].dom, number_of_time_steps=s["steps"],
                                     output_headers=["T"] + ["c%d" % j for j in range(s["nd"])], compile_equations=s["compiled"], **kw)
        else:
            x["s"].runSimulation()
        x["k"] += 1
    for s, x in zip(case["sys"], state):
        nm = ["%s_%s" % (q["n"], s["n"]) for q in s["q"]]
        pre = "Col " if s["rename"] else ""
        r = x["s"].getResults("dict")[nm[0]]
        check(sorted(r) == sorted(pre + n for n in nm[:s["nd"] + 1]), "columns %s", sorted(r))
        check(np.allclose(r[pre + nm[0]], s["_t"]), "times %s, expected %s", r[pre + nm[0]], s["_t"])
        for j in range(1, s["nd"] + 1):
            y = np.array(r[pre + nm[j]], dtype=float)
            w = np.array(s["_Y"])[:, j - 1]
            check(y.shape == w.shape and np.allclose(y, w, atol=1e-4 * (1 + np.max(np.abs(w)))), "%s is %s, its solution is %s", nm[j], y, w)
    for s in case["sys"]:
        s.pop("_t", None), s.pop("_Y", None)
    rec.label("same_names" if case["sys"][0]["n"] == case["sys"][1]["n"] else "different")
    rec.nt(case["order"] not in ([0, 0, 0, 1, 1, 1], [1, 1, 1, 0, 0, 0]))


# ---- instances of the unit operations ------------------------------------------------------
@st.composite
def strategy_inst(draw):
    ops = ["Mixer", "Splitter", "Valve", "SimplePump", "Heater", "Cooler", "MaterialStream", "HomogeneousMaterialStream"]
    sp = list(draw(st.permutations(["water", "toluene", "ethanol"])))[:draw(st.integers(1, 2))]
    return {"a": draw(st.sampled_from(ops)), "b": draw(st.sampled_from(ops)), "same": draw(st.booleans()), "sp": sp,
            "do": list(draw(st.permutations(["inlets", "outlets", "value", "equation", "variable", "call", "expose"])))[:draw(st.integers(1, 5))]}


def picture(m):
    return {"variables": sorted(m.variables), "parameters": sorted((k, p.is_specified, p.value) for k, p in m.parameters.items()),
            "constants": sorted((k, c.is_specified, c.value) for k, c in m.constants.items()),
            "equations": sorted((k, str(e.equation_expression.symbolic_object), e.type) for k, e in m.equations.items()),
            "exposed": sorted((k, o.name) for k, v in m.exposed_vars.items() for o in v),
            "ports": sorted((k, len(v)) for k, v in m.ports.items()) if isinstance(getattr(m, "ports", None), dict) else None}


def body_inst(case, rec):
    kb = case["a"] if case["same"] else case["b"]

    def mk(k, n):
        m = getattr(L, k)(n, "", PP(len(case["sp"]), list(case["sp"]), [1.0 / len(case["sp"])] * len(case["sp"])))
        return m
    a, b = mk(case["a"], "A"), mk(kb, "B")
    a()
    b()
    before = picture(b)
    done = 0
    for d in case["do"]:
        if d in ("inlets", "outlets"):
            st_ = mk("MaterialStream", "S" + d)
            st_()
            f = getattr(a, "_setInlets" if d == "inlets" else "_setOutlets", None)
            if f is None or not hasattr(a, "ports"):
                continue
            f([st_])
        elif d == "value":
            for p in list(a.parameters.values()) + list(a.constants.values()):
                p.setValue(7.0)
        elif d == "equation" and a.variables:
            v = list(a.variables.values())[0]
            a.createEquation("more", "", v() - 2 * v())
        elif d == "variable":
            a.createVariable("more", mk_unit(ZERO), "")
        elif d == "call":
            a()
        elif d == "expose":
            a.createVariable("shown", mk_unit(ZERO), "", is_exposed=True, type="input")
        done += 1
    check(picture(b) == before, "%s changed after another %s was used (%s): %s", kb, case["a"], case["do"],
          [k for k, v in picture(b).items() if v != before[k]])
    c = mk(kb, "B")
    c()
    now = picture(c)
    check(now == before, "a new %s differs from one made before another %s was used (%s): %s", kb, case["a"], case["do"], [k for k in now if now[k] != before[k]])
    for x in (a, c):
        for kind in ("variables", "parameters", "constants"):
            sh = {id(o) for o in getattr(x, kind).values()} & {id(o) for o in getattr(b, kind).values()}
            check(not sh, "two models share %s", kind)
    rec.nt(done >= 1)


# ---- expressions used in several places ----------------------------------------------------
@st.composite
def strategy_shared(draw):
    b = Builder(draw, max_q=5)
    d = draw(st.sampled_from(POOL))
    parts = []
    for _ in range(draw(st.integers(2, 3))):
        e = b.expr(list(d), draw(st.integers(0, 3)))
        parts.append(e if e[0] != "n" else b.leaf(d))
    uses = []
    for _ in range(draw(st.integers(1, 5))):
        uses.append([draw(st.sampled_from(["add", "sub", "mul", "div", "pow", "min", "abs", "sum", "eq", "eqn", "residual", "two", "func"])),
                     draw(st.integers(0, 9)), draw(st.integers(0, 9)), draw(NUM)])
    return {"w": b.world, "parts": parts, "uses": uses}


def body_shared(case, rec):
    """using an expression in others, and in equations, leaves it as it was"""
    w = case["w"]
    objs = mk_world(w)
    vals = [q["v"] for q in w]
    nodes_ = [(build(p, objs), p) for p in case["parts"]]

    def look(n):
        return (str(n.symbolic_object), sorted(n.symbolic_map), sorted(n.variable_map), dict(n.equation_type), unit_vec(n.unit_object))
    first = [look(n) for n, _ in nodes_]
    eqs = []
    O = S.ops
    for k, i, j, x in case["uses"]:
        a, ea = nodes_[i % len(nodes_)]
        b, eb = nodes_[j % len(nodes_)]
        if k in ("add", "sub", "mul", "div"):
            try:
                ev([k, ea, eb], vals)
            except OutOfDomain:
                continue
            {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b}[k]()
        elif k == "pow":
            a ** 2
        elif k == "min":
            O.Min(a, x)
        elif k == "abs" and not any(dim(ea, w) or ZERO):
            O.Abs(a)
        elif k == "sum":
            sum([a, b, a])
        elif k == "eqn":
            eqs.append((S.Equation("e", "", a == x), ["sub", ea, ["n", x]]))
        elif k == "eq" and i % len(nodes_) != j % len(nodes_):
            eqs.append((S.Equation("e", "", a == b), ["sub", ea, eb]))
        elif k == "residual":
            eqs.append((S.Equation("e", "", a), ea))
        elif k == "two":
            eq = S.Equation("e", "", a == b + a)
            eq._convertToResidualForm()
            eqs.append((eq, ["sub", ea, ["add", eb, ea]]))
        elif k == "func" and not any(dim(ea, w) or ZERO):
            O.Sin(a)
            O.Exp(0.01 * a)
        for (n, p), f in zip(nodes_, first):
            check(look(n) == f, "after %s with it, %s is %s, it was %s", k, show(p, w), look(n), f)
        for q, o in zip(w, objs):
            check(o.is_specified == q["s"] and (o.value == q["v"]) and unit_vec(o.units) == [float(z) for z in q["d"]], "%s was changed by %s", q["n"], k)
        m = {q["n"]: q["v"] for q in w}
        for eq, e in eqs:
            try:
                v, er = ev(e, vals)
            except OutOfDomain:
                continue
            x_ = eq.equation_expression
            got = float(x_.symbolic_object.subs(m)) if hasattr(x_.symbolic_object, "subs") else float(x_.symbolic_object)
            check(abs(got - v) <= 1e-7 * (1 + abs(v)) + 1e4 * er, "equation %s gives %r after %s, it is %r", show(e, w), got, k, v)
    rec.label(*[u[0] for u in case["uses"]])
    rec.nt(len(case["uses"]) >= 2)


SUBS = [
    Sub("turns", strategy_turns, body_turns, 120, 1200,
        "2-3 random problems (some of the same classes and names with other values) built, resolved, configured and run in random turns, each compared "
        "with the same problem processed alone; non-trivial: turns are mixed and a result was computed", shards=6),
    Sub("dynamic_turns", strategy_dyn, body_dyn, 50, 500, "two dynamic problems in random turns against independent integrations; non-trivial: turns are mixed", shards=2),
    Sub("instances", strategy_inst, body_inst, 120, 1200,
        "one unit operation or stream is used, changed and connected; another instance made before it, and one made after it, are the same; non-trivial: a change was made", shards=2),
    Sub("shared_expressions", strategy_shared, body_shared, 300, 3000,
        "random expressions used repeatedly in other expressions and equations stay as they were; non-trivial: two uses", shards=3),
]
