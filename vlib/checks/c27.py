"""C27 a changed parameter is seen after the problem is resolved again."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa

S = sloth()
M = mods()


@st.composite
def strategy(draw):
    s = draw(system(nonlinear=draw(st.integers(0, 2)) == 0, max_models=3, max_vars=3))
    if draw(st.booleans()):
        for m in s["models"]:
            m["mode"] = "init"
    pars = [[mi, i] for mi, m in enumerate(s["models"]) for i, q in enumerate(m["q"]) if q["s"]]
    if not pars:
        m = s["models"][0]
        m["q"].append({"k": "par", "n": "kk", "d": list(m["q"][[i for i, q in enumerate(m["q"]) if q["role"] == "own"][0]]["d"]), "v": 1.5, "s": True, "exp": None, "role": "own"})
        m["order"].append(len(m["q"]) - 1)
        i = [i for i, q in enumerate(m["q"]) if q["role"] == "own"][0]
        m["eqs"][0] = {"n": "eqk", "l": ["mul", ["n", 2], ["q", i]], "r": ["q", len(m["q"]) - 1], "f": "two"}
        m["eqs"] = m["eqs"][:1]
        s = None if False else s
        pars = [[0, len(m["q"]) - 1]]
    rounds = draw(st.lists(st.lists(st.tuples(st.sampled_from(pars), st.sampled_from([1.02, 0.98, 1.015, 0.99]), st.sampled_from(["object", "simulation", "quantity", "unit"])),
                                    min_size=1, max_size=3), min_size=1, max_size=3))
    s["rounds"] = [[[p, f, h] for p, f, h in r] for r in rounds]
    if draw(st.integers(0, 3)) == 0:
        # equations without a name
        for m in s["models"]:
            for e in m["eqs"]:
                e["un"] = True
        s["unnamed"] = True
    s["fresh_sim"] = draw(st.booleans())
    return s


def body(case, rec):
    import copy
    s = copy.deepcopy(case)
    prob, ms = make_problem(s)
    prob.resolve()
    n_eq = len(prob.equation_block.equations)
    if n_eq != len(prob.equation_block._var_list):
        return
    sim = M.Simulation("s", "", prob)

    def run(sim):
        sim.setConfigurations()
        try:
            sim.runSimulation(show_final_residuals=False)
        except S.err.NumericalError:
            return None
        return {k: float(v) for k, v in sim.getResults("dict").items()}

    last = run(sim)
    effective = 0
    for rnd in case["rounds"]:
        for (mi, i), f, how in rnd:
            q = s["models"][mi]["q"][i]
            o = ms[mi].objs[i]
            v = q["v"] * f
            name = q["n"] + "_" + s["models"][mi]["n"]
            if s["models"][mi]["mode"] != "init":
                # the model declares its objects, with their values, at every call
                how = "declared again"
            elif how == "simulation" and q["k"] == "par" and name in prob.equation_block.parameter_dict:
                check(sim[name] is o and sim[o] is o, "simulation[%s] is not the parameter", name)
                sim[name].setValue(v)
            elif how == "simulation":
                o.setValue(v)
            elif how == "quantity":
                o.setValue(mk_unit(q["d"]) * v)
            elif how == "unit":
                o.setValue(v, mk_unit(q["d"]))
            elif how == "object":
                o.setValue(v)
            q["v"] = v
            rec.label(how)
        prob.resolve()
        check(len(prob.equation_block.equations) == n_eq, "%d equations after resolving again, %d before", len(prob.equation_block.equations), n_eq)
        if case["fresh_sim"]:
            sim = M.Simulation("s", "", prob)
        sim.setConfigurations()
        for mi, m in enumerate(s["models"]):
            for i, q in enumerate(m["q"]):
                name = q["n"] + "_" + m["n"]
                if q["k"] == "par" and q["s"] and name in prob.equation_block.parameter_dict:
                    check(sim[name] is ms[mi].objs[i] and sim[name].value == q["v"], "simulation[%s] is %r, the parameter in use has the value %r", name, sim[name].value, q["v"])
        r = run(sim)
        if r is None:
            rec.label("not_converged")
            continue
        try:
            res = all_residuals(s, r)
        except OutOfDomain:
            continue
        for n, v, err, sc in res:
            check(abs(v) <= 2e-5 * sc, "after changing parameters the solution leaves %r in %s (terms of size %r)", v, n, sc)
        if last is not None and any(abs(last[k] - r[k]) > 1e-4 * (1 + abs(r[k])) for k in r):
            effective += 1
        last = r
    # values given are still those of the objects
    for m, md in zip(ms, s["models"]):
        for o, q in zip(m.objs, md["q"]):
            if q["s"]:
                check(o.value == q["v"] and o.is_specified, "parameter %s is %r, it was given %r", o.name, o.value, q["v"])
    if s.get("unnamed"):
        rec.label("unnamed")
    rec.nt(effective >= 1)


SUBS = [
    Sub("change_resolve_run", strategy, body, 250, 2500,
        "histories of parameter changes (through the object, the simulation, with unit, as quantity), resolve and run on random "
        "problems: every solution satisfies the equations with the new values; non-trivial: the solution moved", shards=7),
]
ASSUMPTIONS = ["a model that declares its parameters at every call gives them the values they shall have"]
