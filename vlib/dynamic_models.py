"""Dynamic problems that unite several models (each with its own time variable), with or without connections."""
import copy

import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from .gen import *  # noqa
from .runner import check, Violation
from .systems import mods, declare_q

S = sloth()
M = mods()


@st.composite
def multi_strategy(draw, conns=None):
    """2-3 models of 1-2 differential equations; a connection carries a variable of a model into a rate of another"""
    from .checks.c17 import odes
    k = draw(st.integers(2, 3))
    names = draw(st.lists(st.sampled_from(["A", "B", "AB", "M1", "M10", "t"]), min_size=k, max_size=k, unique=True))
    models = []
    for nm in names:
        m = odes(draw, smooth=True, max_n=2)
        m["n"] = nm
        models.append(m)
    cl = []
    for j in range(k):
        want = draw(st.booleans()) if conns is None else (conns and (draw(st.booleans()) or (j == k - 1 and not cl)))
        m = models[j]
        cand = [i for i, e in enumerate(m["eqs"]) if e["r"] is not None]
        if not (want and cand):
            continue
        src = draw(st.sampled_from([i for i in range(k) if i != j]))
        out = draw(st.integers(1, models[src]["nd"]))
        rate = [i for i, q in enumerate(m["q"]) if q["n"] == "rate"]
        m["q"].append({"k": "var", "n": "inp", "d": ZERO, "s": False, "exp": "input"})
        i = len(m["q"]) - 1
        m["inp"] = i
        m["decl"] = m["decl"] + [i]
        models[src]["q"][out]["exp"] = "output"
        e = m["eqs"][draw(st.sampled_from(cand))]
        x = ["mul", ["n", draw(st.sampled_from([-0.5, 0.5, 0.25]))], ["q", i]]
        if rate:
            x = ["mul", ["q", rate[0]], x]
        e["r"] = draw(st.sampled_from([["add", e["r"], x], ["sub", x, e["r"]]]))
        cl.append({"from": src, "to": j, "out": out, "mode": draw(st.sampled_from(["vars", "list", "expr", "anon"])),
                   "scale": draw(st.sampled_from([1.0, 1.0, 2.0, -0.5]))})
    return {"models": models, "conns": cl, "add": list(draw(st.permutations(range(k)))), "first": draw(st.booleans()), "dom": draw(st.integers(0, 5)),
            "ic": draw(st.integers(0, 5))}


def make_multi(s):
    """-> problem, models, domain"""
    ms = []
    for md in s["models"]:
        class Dyn(M.Model):
            def __init__(self, name, description="", md=md):
                super().__init__(name, description)
                self.md = md
                self.objs = [None] * len(md["q"])
                for i in md["decl"]:
                    self.objs[i] = declare_q(self, md["q"][i])

            def DeclareEquations(self):
                md = self.md
                for k, e in enumerate(md["eqs"]):
                    if e.get("alg") is not None:
                        self.createEquation("eq%d" % k, "", build(e["alg"], self.objs))
                        continue
                    d = self.objs[e["v"]].Diff(self.objs[0])
                    self.createEquation("eq%d" % k, "", d == (e["number"] if e["number"] is not None else build(e["r"], self.objs)))
        ms.append(Dyn(md["n"], ""))
    dom = S.Domain("domain", mk_unit(ZERO), ms[0].objs[0], "domain")
    todo = unknown_objs(s, ms)
    r = s["dom"] % len(todo)
    for o in todo[r:] + todo[:r]:
        o.distributeOnDomain(dom)
    for m in ms:
        m()
    prob = M.Problem("p", "")
    if s["first"]:
        prob.addModels([ms[i] for i in s["add"]])
    for c in s["conns"]:
        a, b = ms[c["from"]], ms[c["to"]]
        o, i = a.objs[c["out"]], b.objs[b.md["inp"]]
        if c["mode"] == "vars":
            prob.createConnection(a, b, o, i)
        elif c["mode"] == "list":
            prob.createConnection(a, b, [o], [i])
        else:
            prob.createConnection(a if c["mode"] == "expr" else "", b, c["scale"] * o() if c["scale"] != 1.0 else o(), i())
    if not s["first"]:
        for i in s["add"]:
            prob.addModels(ms[i])
    prob.setTimeVariableName([m.objs[0].name for m in ms])
    return prob, ms, dom


def unknown_objs(s, ms):
    return [m.objs[i] for m in ms for i in list(range(1, m.md["nd"] + 1)) + ([m.md["inp"]] if "inp" in m.md else []) + m.md.get("more", [])]


def scale_of(c):
    return c["scale"] if c["mode"] in ("expr", "anon") else 1.0


def rates(s):
    """own evaluation: (names of differential unknowns, y0, f(t, y), alg(t, y) -> dict of inputs)"""
    names = [(j, i) for j, m in enumerate(s["models"]) for i in range(1, m["nd"] + 1)]
    y0 = [m["y0"][i - 1] for m in s["models"] for i in range(1, m["nd"] + 1)]
    pos = {k: n for n, k in enumerate(names)}

    def alg(y):
        return {c["to"]: scale_of(c) * y[pos[(c["from"], c["out"])]] for c in s["conns"]}

    def f(t, y):
        if max(abs(float(x)) for x in y) > 50:
            raise OutOfDomain()
        inp = alg(y)
        out = []
        for j, m in enumerate(s["models"]):
            v = [q.get("v", 0.0) for q in m["q"]]
            v[0] = t
            for i in range(1, m["nd"] + 1):
                v[i] = float(y[pos[(j, i)]])
            if "inp" in m:
                v[m["inp"]] = float(inp[j])
            by = {e["v"]: e for e in m["eqs"]}
            out += [by[i]["number"] if by[i]["number"] is not None else ev(by[i]["r"], v)[0] for i in range(1, m["nd"] + 1)]
        return out
    return names, y0, f, alg


def initial(s, t0):
    """every documented initial condition of the problem"""
    names, y0, f, alg = rates(s)
    d = f(t0, y0)
    ic = {}
    for m in s["models"]:
        ic["t_" + m["n"]] = t0
    for (j, i), y, z in zip(names, y0, d):
        m = s["models"][j]
        n = "%s_%s" % (m["q"][i]["n"], m["n"])
        ic[n] = y
        ic[n + "_d"] = float(z)
    for j, v in alg(y0).items():
        ic["inp_" + s["models"][j]["n"]] = float(v)
    ks = list(ic)
    r = s["ic"] % len(ks)
    return {k: ic[k] for k in ks[r:] + ks[:r]}


def trajectories(s, ts):
    """name -> values at ts, by independent integration of the eliminated system"""
    names, y0, f, alg = rates(s)
    sol = solve_ivp(f, (ts[0], ts[-1]), y0, method="RK45", t_eval=ts, rtol=1e-8, atol=1e-10)
    if not sol.success:
        raise OutOfDomain()
    out = {}
    for (j, i), y in zip(names, sol.y):
        m = s["models"][j]
        out["%s_%s" % (m["q"][i]["n"], m["n"])] = y
    cols = np.array([[alg(col)[c["to"]] for c in s["conns"]] for col in sol.y.T])
    for n, c in enumerate(s["conns"]):
        out["inp_" + s["models"][c["to"]]["n"]] = cols[:, n]
    return out


@st.composite
def run_strategy(draw, conns):
    s = draw(multi_strategy(conns=conns))
    s["t0"] = draw(st.sampled_from([0.0, 0.0, 0.5, -1.0]))
    s["span"] = draw(st.sampled_from([0.5, 1.0]))
    s["steps"] = draw(st.sampled_from([1, 5, 10]))
    s["compiled"] = draw(st.booleans())
    s["solver"] = draw(st.sampled_from(["ODEINT", "CVODE", None])) if not conns else None
    s["again"] = draw(st.booleans())
    return s


def run_body(s, rec):
    ts = np.linspace(s["t0"], s["t0"] + s["span"], s["steps"] + 1)
    try:
        ref, ic = trajectories(s, ts), initial(s, s["t0"])
    except (OutOfDomain, ArithmeticError, ValueError):
        return
    prob, ms, dom = make_multi(s)
    prob.resolve()
    check(prob._getProblemType() == ("differential-algebraic" if s["conns"] else "differential"), "the problem is typed %s", prob._getProblemType())
    prob.setInitialConditions(ic)
    big = 1 + max(float(np.max(np.abs(v))) for v in ref.values())
    lim = (1e-3 if s["conns"] else 2e-4) * big
    for k in range(1 + s["again"]):
        sim = M.Simulation("s", "", prob)
        sim.setConfigurations(initial_time=s["t0"], end_time=s["t0"] + s["span"], is_dynamic=True, domain=dom, number_of_time_steps=s["steps"],
                              compile_equations=s["compiled"], **({"differential_solver": s["solver"]} if not s["conns"] else {}))
        try:
            sim.runSimulation(show_output_msg=False)
        except RuntimeError as e:
            if "standin" in str(e):
                rec.label("standin_gave_up")
                return
            raise
        r = sim.getResults("dict")
        check(list(r) == [ms[0].objs[0].name], "results over %s", list(r))
        r = r[ms[0].objs[0].name]
        check(sorted(r) == sorted([ms[0].objs[0].name] + list(ref)), "columns %s, the unknowns are %s", sorted(r), sorted(ref))
        check(np.allclose(np.array(r[ms[0].objs[0].name], dtype=float), ts, atol=1e-9), "times %s", list(r[ms[0].objs[0].name])[:4])
        for n, v in ref.items():
            y = np.array(r[n], dtype=float)
            check(np.all(np.abs(y - v) <= lim), "run %d: %s is %s, the solution is %s", k + 1, n, y[[0, -1]], v[[0, -1]])
        sim.reset()
    times = sum(m.objs[0].name in prob.equation_block._var_list for m in ms)
    rec.label("models=%d" % len(ms), "connections=%d" % len(s["conns"]), "explicit_times=%d" % times)
    rec.nt(len(ref) >= 3)


@st.composite
def change_strategy(draw):
    """a balanced dynamic problem of several models, and a change of its equations or unknowns"""
    s = draw(multi_strategy())
    cand = [["drop_eq", j, i] for j, m in enumerate(s["models"]) for i in range(len(m["eqs"]))]
    cand += [["dup", j, i] for j, m in enumerate(s["models"]) for i in range(len(m["eqs"]))]
    cand += [["drop_conn", i] for i in range(len(s["conns"]))]
    cand += [[k, j, draw(st.integers(0, 3))] for j in range(len(s["models"])) for k in ("algebraic", "constraint", "foreign_unknown")]
    cand += [["unspecify", j, i] for j, m in enumerate(s["models"]) for i, q in enumerate(m["q"]) if q["s"]
             and any(e["r"] is not None and i in syms(e["r"]) for e in m["eqs"])]
    s["change"] = draw(st.one_of(st.none(), st.sampled_from(cand)))
    return s


def apply_change(s):
    s = copy.deepcopy(s)
    ch = s["change"]
    if ch is None:
        return s
    if ch[0] == "drop_conn":
        s["conns"].pop(ch[1])
        return s
    m = s["models"][ch[1]]
    if ch[0] == "drop_eq":
        m["eqs"].pop(ch[2])
    elif ch[0] == "dup":
        m["eqs"].append(copy.deepcopy(m["eqs"][ch[2]]))
    elif ch[0] == "unspecify":
        m["q"][ch[2]]["s"] = False
    elif ch[0] == "constraint":
        m["eqs"].append({"v": None, "alg": ["sub", ["mul", ["n", 2.0], ["q", 1 + ch[2] % m["nd"]]], ["n", 1.0]]})
    else:
        m["q"].append({"k": "var", "n": "extra", "d": ZERO, "s": False, "exp": None})
        k = len(m["q"]) - 1
        m["decl"] = m["decl"] + [k]
        m["more"] = [k]
        if ch[0] == "algebraic":
            # one more unknown with one more equation
            m["eqs"].insert(ch[2] % (len(m["eqs"]) + 1), {"v": None, "alg": ["sub", ["q", k], ["mul", ["n", 0.5], ["q", 1]]]})
        else:
            # one more unknown in an equation there is, or a twin of it
            e = next((e for e in m["eqs"] if e["r"] is not None), None)
            rate = [i for i, q in enumerate(m["q"]) if q["n"] == "rate"]
            x = ["mul", ["q", rate[0]], ["q", k]] if rate else ["q", k]
            if e is None:
                m["eqs"][0].update(number=None, r=x)
            else:
                e["r"] = ["add", e["r"], x]
    return s


def count(s):
    """-> (number of equations, names of the unknowns, whether there is a differential equation, types of the equations)"""
    un, neq, diff, alg = set(), len(s["conns"]), 0, len(s["conns"])
    used_t = set()
    for m in s["models"]:
        for e in m["eqs"]:
            neq += 1
            ast = e.get("alg") or e["r"]
            idx = set(syms(ast)) if ast is not None else set()
            if e["v"] is not None:
                diff += 1
                idx.add(e["v"])
            else:
                alg += 1
            if 0 in idx:
                used_t.add("t_" + m["n"])
            un |= {m["q"][i]["n"] + "_" + m["n"] for i in idx if i != 0 and not m["q"][i]["s"]}
    for c in s["conns"]:
        a, b = s["models"][c["from"]], s["models"][c["to"]]
        un |= {a["q"][c["out"]]["n"] + "_" + a["n"], "inp_" + b["n"]}
    return neq, un, diff, alg, used_t


def dof_body(case, rec):
    s = apply_change(case)
    neq, un, diff, alg, used_t = count(s)
    if not diff:
        return
    prob, ms, dom = make_multi(s)
    prob.resolve()
    dof = M.analysis.DOF_Analysis(prob)
    rec.label("balanced" if neq == len(un) else "over" if neq > len(un) else "under", s["change"][0] if s["change"] else "unchanged", "times=%d" % len(used_t))
    rec.nt(neq >= 3)
    if neq == len(un):
        check(dof._dofTest() is True, "the analysis refuses a balanced dynamic problem")
        return
    try:
        r = dof._dofTest()
    except Exception as e:  # noqa
        r = str(e)
    check(r is not True, "the analysis accepts %d equations with the unknowns %s", neq, sorted(un))
    check("SPECIFIED" not in str(r).upper() or ("UNDER" in r) == (neq < len(un)), "%d equations, %d unknowns: %s", neq, len(un), str(r)[:80])
    prob.setInitialConditions({**{"t_" + m["n"]: 0.0 for m in s["models"]}, **{n + x: 0.5 for n in un for x in ("", "_d")}})
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations(initial_time=0.0, end_time=0.5, is_dynamic=True, domain=dom, number_of_time_steps=2)
    try:
        sim.runSimulation(show_output_msg=False)
    except Exception:  # noqa: any refusal will do
        check(sim.output is None and (dom.values is None or len(next(iter(dom.values.values()))) == 0), "a refused simulation has results")
        return
    raise Violation("a dynamic problem with %d equations and the unknowns %s was simulated" % (neq, sorted(un)))


def assembly_body(case, rec):
    """C12 for dynamic problems: equations, unknowns (time included where written), groups, type; models edited between resolves"""
    s = apply_change(case)
    prob, ms, dom = make_multi(s)
    base = copy.deepcopy(case)
    base["change"] = None

    def verify(s, what):
        neq, un, diff, alg, used_t = count(s)
        pars = {q["n"] + "_" + m["n"] for m in s["models"] for i, q in enumerate(m["q"]) if q["k"] != "var"}
        b = prob.equation_block
        check(len(b.equations) == neq, "%s: %d equations, %d were declared and connected", what, len(b.equations), neq)
        check(sorted(map(str, b._var_list)) == sorted((un | used_t) - pars), "%s: the variables are %s, the equations have %s", what, sorted(map(str, b._var_list)), sorted((un | used_t) - pars))
        g = {k: [e.name for e in v] for k, v in b._equation_groups.items()}
        check(len(g["differential"]) == diff and len(g["linear"]) + len(g["nonlinear"]) == alg, "%s: groups %s, %d differential and %d other equations were declared", what, g, diff, alg)
        byname = {}
        for m, o in zip(s["models"], ms):
            for k, e in enumerate(m["eqs"]):
                byname["eq%d_%s" % (k, m["n"])] = e["v"] is not None
        for e in b.equations:
            check((e.name in g["differential"]) == byname.get(e.name, False), "%s: %s in the wrong group", what, e.name)
        want = None if neq == 0 else "differential-algebraic" if diff and alg else "differential" if diff else None
        if want:
            check(prob._getProblemType() == want, "%s: typed %s, expected %s", what, prob._getProblemType(), want)
        return neq
    prob.resolve()
    n = verify(s, "after resolve")
    prob.resolve()
    verify(s, "after a second resolve")
    # the models change: what they declare now is the problem
    if s["change"] and s["change"][0] in ("drop_eq", "dup", "constraint"):
        m = ms[s["change"][1]]
        m.md["eqs"][:] = base["models"][s["change"][1]]["eqs"]
        if s["change"][0] != "drop_eq":
            m.equations.clear()
            for c in s["conns"]:
                if c["to"] == s["change"][1]:
                    a, o, i = ms[c["from"]], ms[c["from"]].objs[c["out"]], m.objs[m.md["inp"]]
                    prob.createConnection(a, m, o, i)
        prob.resolve()
        verify({**s, "models": [x.md for x in ms]}, "after the model changed")
        rec.label("changed_back")
    rec.label("models=%d" % len(ms), "conns=%d" % len(s["conns"]), str(prob._getProblemType()))
    rec.nt(n >= 3)
