"""C14 only problems without degrees of freedom are simulated."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa
from .. import dynamic_models

S = sloth()
M = mods()


@st.composite
def strategy(draw):
    s = draw(system(nonlinear=draw(st.booleans()), max_models=3, max_vars=3))
    cand = []
    cand += [["drop_eq", m, i] for m, md in enumerate(s["models"]) for i in range(len(md["eqs"]))]
    cand += [["drop_conn", i] for i in range(len(s["conns"]))]
    cand += [["add_eq", m, draw(st.integers(0, 9))] for m in range(len(s["models"]))]
    cand += [["unspecify", m, i, draw(st.booleans())] for m, md in enumerate(s["models"]) for i, q in enumerate(md["q"])
             if q["s"] and any(i in syms(["sub", e["l"], e["r"]]) for e in md["eqs"])]
    cand += [["dup", m, i] for m, md in enumerate(s["models"]) for i in range(len(md["eqs"]))]
    cand += [["dup_for", m, i] for m, md in enumerate(s["models"]) for i in range(len(md["eqs"]))]
    cand += [["swap", 0]]
    s["change"] = draw(st.one_of(st.none(), st.sampled_from(cand)))
    s["opts"] = [draw(st.booleans()), draw(st.booleans()), draw(st.booleans())]
    return s


def used(s):
    out = set()
    for m in s["models"]:
        for e in m["eqs"]:
            out |= {(m["n"], i) for i in syms(["sub", e["l"], e["r"]]) if m["q"][i]["k"] == "var"}
    for c in s["conns"]:
        for mi, idx in ((c["from"], c["outs"]), (c["to"], c["ins"])):
            out |= {(s["models"][mi]["n"], i) for i in idx}
    return out


def body(case, rec):
    import copy
    s = copy.deepcopy(case)
    ch = s["change"]
    if ch is not None:
        if ch[0] == "drop_eq":
            s["models"][ch[1]]["eqs"].pop(ch[2])
        elif ch[0] == "drop_conn":
            s["conns"].pop(ch[1])
        elif ch[0] == "add_eq":
            md = s["models"][ch[1]]
            vs = [i for i, q in enumerate(md["q"]) if q["k"] == "var" and q["role"] == "own"]
            i = vs[ch[2] % len(vs)]
            md["eqs"].append({"n": "extra", "l": ["mul", ["n", 2], ["q", i]], "r": ["n", 2 * md["q"][i]["v"]], "f": "number"})
        elif ch[0] in ("dup", "dup_for"):
            # the same equation declared again under another name (in place of another equation or not)
            md = s["models"][ch[1]]
            md["eqs"].append(dict(md["eqs"][ch[2]], n="again"))
            if ch[0] == "dup_for":
                s["models"][0]["eqs"].append({"n": "once_more", "l": s["models"][0]["eqs"][0]["l"], "r": s["models"][0]["eqs"][0]["r"], "f": s["models"][0]["eqs"][0]["f"]})
        elif ch[0] == "unspecify":
            q = s["models"][ch[1]]["q"][ch[2]]
            # never specified, though perhaps declared with a value
            q["s"], q["given"] = False, ch[3]
        elif ch[0] == "swap":
            # unknown for equation: one equation over nothing new, plus one more unknown
            md = s["models"][0]
            md["q"].append({"k": "var", "n": "extra", "d": ZERO, "v": 2.0, "s": False, "exp": None, "role": "own"})
            md["order"].append(len(md["q"]) - 1)
            md["eqs"].append({"n": "extra", "l": ["mul", ["n", 2], ["q", len(md["q"]) - 1]], "r": ["n", 4.0], "f": "number"})
    neq = sum(len(m["eqs"]) for m in s["models"]) + len(s["conns"])
    nun = len(used(s)) + sum(1 for m in s["models"] for i, q in enumerate(m["q"]) if q["k"] != "var" and not q["s"]
                             and any(i in syms(["sub", e["l"], e["r"]]) for e in m["eqs"]))
    prob, ms = make_problem(s)
    prob.resolve()
    if neq == 0:
        return
    sim = M.Simulation("sim", "", prob)
    given = {"problem_type": prob._getProblemType()} if case["opts"][2] else {}
    sim.setConfigurations(linear_solver=["sympy", "symbolicsys"][case["opts"][0]], **given)
    dof = M.analysis.DOF_Analysis(prob)
    err = None
    try:
        sim.runSimulation(show_final_residuals=case["opts"][1])
    except Exception as e:  # noqa: any refusal will do
        err = e
    rec.label("balanced" if neq == nun else "over" if neq > nun else "under", ch[0] if ch else "unchanged", *(["type_given"] if given else []))
    if neq != nun:
        check(err is not None, "a problem with %d equations and %d unknowns was simulated", neq, nun)
        check("specified" in str(err), "a problem with %d equations and %d unknowns ended with %r instead of a refusal", neq, nun, err)
        check(("UNDER" in str(err)) == (neq < nun) and ("OVER" in str(err)) == (neq > nun), "%d equations, %d unknowns: %s", neq, nun, str(err)[:80])
        check(sim.output is None, "a refused simulation has results")
        try:
            r = dof._dofTest()
        except Exception:  # noqa
            r = False
        check(r is not True, "the analysis accepts %d equations with %d unknowns", neq, nun)
    else:
        check(dof._dofTest() is True, "the analysis refuses a balanced problem")
        if ch is None or ch[0] == "swap":
            if err is not None and type(err).__name__ == "NumericalError" and any(e.type == "nonlinear" for e in prob.equation_block.equations):
                rec.label("no_convergence")
            else:
                check(err is None, "a balanced problem (%d equations) was refused: %r", neq, err)
                check(len(sim.getResults()) == nun, "%d results for %d unknowns", len(sim.getResults()), nun)
    rec.nt(neq >= 2)


@st.composite
def unknown_case(draw):
    s = draw(system(nonlinear=False, max_models=2, max_vars=2))
    cand = [[m, i] for m, md in enumerate(s["models"]) for i, q in enumerate(md["q"]) if q["role"] == "own" and q["k"] == "var"]
    s["as_par"] = draw(st.sampled_from(cand))
    return s


def body_unknown(case, rec):
    """an unspecified parameter counted among the unknowns gets a result"""
    import copy
    s = copy.deepcopy(case)
    m, i = s["as_par"]
    q = s["models"][m]["q"][i]
    q["k"] = "par"
    prob, ms = make_problem(s)
    prob.resolve()
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations()
    try:
        sim.runSimulation()
    except SyntaxError as e:
        raise Violation("a balanced problem with the unspecified parameter %s ended with %r" % (q["n"], e))
    n = q["n"] + "_" + s["models"][m]["n"]
    check(n in sim.getResults("dict"), "no result for the unspecified parameter %s", n)


SUBS = [
    Sub("balance", strategy, body, 350, 3500,
        "random balanced problems, unchanged or with an equation or connection dropped, an equation added or declared twice, a parameter or constant "
        "left unspecified, or an unknown and an equation added: simulated exactly when balanced; non-trivial: two equations", shards=7),
    Sub("dynamic", dynamic_models.change_strategy, dynamic_models.dof_body, 120, 1200,
        "two or three dynamic models (differential or differential-algebraic problems, each model with its own time variable, written in an equation or not), "
        "unchanged or with an equation or connection dropped or repeated, an algebraic equation with or without a new unknown, a parameter unspecified; "
        "non-trivial: three equations", shards=4),
    Sub("unknown_parameter", unknown_case, body_unknown, 0, 0, "(replay of the known finding: an unspecified parameter in place of a variable)"),
]
ASSUMPTIONS = ["structural singularity (right counts, dependent equations) is not a matter of counting and is not generated"]
