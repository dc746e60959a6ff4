"""C20 a simulation runs with the configurations it was given, however they were given."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods, system, make_problem, solution
from .c17 import odes, make_ode_model

S = sloth()
M = mods()
DEFAULTS = {"initial_time": 0.0, "end_time": None, "linear_solver": "symbolicsys", "nonlinear_solver": "*", "differential_solver": "ODEINT",
            "differential_algebraic_solver": "IDA", "problem_type": None, "is_dynamic": False, "compile_equations": True, "domain": None,
            "time_variable_name": None, "initial_guess": {}, "initial_guess_solver": None, "arg_names": [], "args": [], "verbosity_solver": 0,
            "number_of_time_steps": 100, "configuration_args": {}, "print_output": False, "output_headers": None, "variable_name_map": {},
            "compilation_mechanism": "numpy", "number_parameters_to_optimize": 0, "times_for_solution": None}
VALUES = {"initial_time": st.sampled_from([0.0, 1.5, -2.0, 1 / 3, -1.23456789012345e-9]), "end_time": st.sampled_from([None, 16.0, 1.0, 2 / 3, 123456.789012345]), "linear_solver": st.sampled_from(["sympy", "scipy", None]),
          "nonlinear_solver": st.sampled_from(["sympy", None]), "differential_solver": st.sampled_from(["CVODE", None]), "differential_algebraic_solver": st.sampled_from([None, "x"]),
          "is_dynamic": st.booleans(), "compile_equations": st.booleans(), "time_variable_name": st.sampled_from(["t_M", ["t_M"], "s"]),
          "initial_guess": st.dictionaries(st.sampled_from(["a", "b"]), eighths(), max_size=2), "initial_guess_solver": st.sampled_from(["hybr", ""]),
          "arg_names": st.lists(st.sampled_from(["p", "q"]), max_size=2), "args": st.lists(eighths(), max_size=2), "verbosity_solver": st.integers(0, 2),
          "number_of_time_steps": st.sampled_from([1, 5, None]), "configuration_args": st.dictionaries(st.sampled_from(["rtol", "atol"]), st.just(1e-8), max_size=2),
          "print_output": st.booleans(), "output_headers": st.lists(st.sampled_from(["T", "x"]), max_size=2), "variable_name_map": st.dictionaries(st.sampled_from(["a", "b"]), st.sampled_from(["A", "B"]), max_size=2),
          "compilation_mechanism": st.sampled_from(["numpy", "mpmath"]), "number_parameters_to_optimize": st.integers(0, 2),
          "times_for_solution": st.lists(eighths(), max_size=3), "problem_type": st.sampled_from(["linear", None])}


@st.composite
def confs(draw, k):
    keys = draw(st.lists(st.sampled_from(sorted(VALUES)), unique=True, max_size=k))
    return {x: draw(VALUES[x]) for x in keys}


@st.composite
def strategy(draw):
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        steps.append({"sim": draw(st.integers(0, 1)), "kw": draw(confs(5)), "dict": draw(st.one_of(st.none(), confs(6))), "file": draw(st.one_of(st.none(), confs(6))),
                      "dump": draw(st.booleans()), "mutate": draw(st.booleans())})
    return {"steps": steps, "default_name": draw(st.booleans())}


class _Prob:
    time_variable_name = ["t_Q"]


def body(case, rec):
    import copy
    sims = [M.Simulation("s%d" % i, "", _Prob()) for i in range(2)]
    model = [None, None]
    d = tempfile.mkdtemp(prefix="c20_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        for n, s in enumerate(case["steps"]):
            i = s["sim"]
            kw, dd = copy.deepcopy(s["kw"]), copy.deepcopy(s["dict"])
            kw0, dd0 = copy.deepcopy(kw), copy.deepcopy(dd)
            args = dict(kw)
            given = {}
            if s["file"] is not None:
                with open("f.json", "w") as f:
                    json.dump(s["file"], f)
                args["configurations_file"] = "f.json"
                given = s["file"]
            elif dd is not None:
                args["definition_dict"] = dd
                given = s["dict"]
            sims[i].setConfigurations(**args)
            exp = {**copy.deepcopy(DEFAULTS), **copy.deepcopy(s["kw"]), **copy.deepcopy(given)}
            if exp["time_variable_name"] is None and exp["is_dynamic"] is True:
                exp["time_variable_name"] = ["t_Q"]
            npo = s["kw"].get("number_parameters_to_optimize", 0)
            if npo != 0:
                exp["number_parameters_to_optimize"] = npo
            model[i] = exp
            check(kw == kw0 and dd == dd0, "the given configurations were changed")
            for j in range(2):
                if model[j] is not None:
                    got = sims[j].configurations
                    check(got == model[j], "simulation %d has %s, expected %s", j, {k: v for k, v in got.items() if model[j].get(k, "?") != v}, {k: v for k, v in model[j].items() if got.get(k, "?") != v})
            if s["mutate"]:
                # the containers of one simulation are its own
                for c in ("initial_guess", "variable_name_map", "configuration_args"):
                    sims[i].configurations[c]["changed"] = 1
                    model[i][c]["changed"] = 1
                for c in ("arg_names", "args"):
                    sims[i].configurations[c].append("changed")
                    model[i][c].append("changed")
                check(kw == kw0 and dd == dd0, "the configurations given to a simulation change with the simulation")
            if s["dump"]:
                name = "dump.json"
                if case["default_name"]:
                    sims[i].dumpConfigurations()
                    name = sims[i].name + "-conf.json"
                else:
                    sims[i].dumpConfigurations(name)
                check(sims[i].configurations == model[i], "dumping changed the configurations")
                t = M.Simulation("t", "", _Prob())
                t.setConfigurations(configurations_file=name)
                a = {k: v for k, v in t.configurations.items()}
                check(a == model[i], "dumped and loaded configurations differ in %s", {k: (v, a.get(k, "?")) for k, v in model[i].items() if a.get(k, "?") != v})
        rec.nt(len(case["steps"]) >= 2 and any(s["kw"] or s["dict"] or s["file"] for s in case["steps"]))
    finally:
        os.chdir(cwd)
        import shutil
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def strategy_run(draw):
    kind = draw(st.sampled_from(["algebraic", "dynamic"]))
    if kind == "algebraic":
        s = draw(system(nonlinear=draw(st.booleans()), max_models=2, max_vars=3))
        s["linear"] = draw(st.sampled_from(["sympy", "scipy", "symbolicsys"]))
    else:
        s = odes(draw, max_n=2)
        s["span"] = draw(st.sampled_from([0.5, 1.0]))
        s["steps"] = draw(st.sampled_from([2, 5]))
        s["times"] = draw(st.sampled_from([None, [0.0, 0.25, 0.5]]))
    s["kind"] = kind
    s["ways"] = draw(st.permutations(["kw", "dict", "file", "dump", "partial"]))
    return s


def body_run(case, rec):
    s = case
    dyn = s["kind"] == "dynamic"
    d = tempfile.mkdtemp(prefix="c20_")
    try:
        out = {}
        if not dyn:
            prob, ms = make_problem(s)
            prob.resolve()
            if len(prob.equation_block.equations) != len(prob.equation_block._var_list):
                return
            conf = {"linear_solver": s["linear"], "initial_guess": solution(s)}
            dom = None
        else:
            m = make_ode_model(s)
            prob = M.Problem("p", "")
            prob.addModels(m)
            t = "t_" + s["n"]
            prob.setTimeVariableName([t])
            prob.resolve()
            prob.setInitialConditions({**{t: 0.0}, **{"%s_%s" % (q["n"], s["n"]): v for q, v in zip(s["q"][1:], s["y0"])}})
            conf = {"initial_time": 0.0, "end_time": s["span"], "is_dynamic": True, "compile_equations": False, "number_of_time_steps": s["steps"],
                    "variable_name_map": {t: "time"}, "times_for_solution": s["times"]}
            dom = m.dom
        f = os.path.join(d, "c.json")
        for w in s["ways"]:
            sim = M.Simulation("s", "", prob)
            kwd = {} if dom is None else {"domain": dom}
            if w == "kw":
                sim.setConfigurations(**conf, **kwd)
            elif w == "dict":
                sim.setConfigurations(definition_dict={**conf, **kwd})
            elif w == "file":
                json.dump(conf, open(f, "w"))
                sim.setConfigurations(configurations_file=f, **kwd)
            elif w == "partial":
                k = sorted(conf)[0]
                sim.setConfigurations(definition_dict={k: conf[k]}, **{a: b for a, b in conf.items() if a != k}, **kwd)
            else:
                a = M.Simulation("a", "", prob)
                a.setConfigurations(**{**conf, **({"times_for_solution": np.array(s["times"])} if dyn and s["times"] else {})}, **kwd)
                a.dumpConfigurations(f)
                sim.setConfigurations(configurations_file=f, **kwd)
            try:
                sim.runSimulation(show_output_msg=False, show_final_residuals=False)
                r = sim.getResults("dict")
                out[w] = {k: {a: list(map(float, b)) for a, b in v.items()} for k, v in r.items()} if dyn else {k: float(v) for k, v in r.items()}
            except S.err.NumericalError as e:
                out[w] = "NumericalError"
            sim.reset()
            if dyn:
                check(all(v.values.size == 0 for v in dom.values.values()), "the domain still has values after reset")
        a = out[s["ways"][0]]
        for w in s["ways"][1:]:
            check(out[w] == a, "configured by %s the result is %s, by %s it is %s", s["ways"][0], a, w, out[w])
        rec.label(s["kind"])
        rec.nt(isinstance(a, dict))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def strategy_own(draw):
    opts = {"initial_guess": st.dictionaries(st.sampled_from(["a", "b"]), eighths(), min_size=1, max_size=2), "args": st.lists(eighths(), min_size=1, max_size=3),
            "arg_names": st.lists(st.sampled_from(["p", "q"]), min_size=1, max_size=2), "output_headers": st.lists(st.sampled_from(["T", "x"]), min_size=1, max_size=2),
            "variable_name_map": st.dictionaries(st.sampled_from(["a", "b"]), st.sampled_from(["A", "B"]), min_size=1, max_size=2), "times_for_solution": st.lists(eighths(), min_size=1, max_size=3),
            "time_variable_name": st.lists(st.sampled_from(["t", "s"]), min_size=1, max_size=2),
            "configuration_args": st.fixed_dictionaries({"rtol": eighths(), "options": st.fixed_dictionaries({"tcrit": st.lists(eighths(), min_size=1, max_size=2), "deep": st.dictionaries(st.sampled_from(["u", "v"]), eighths(), max_size=2)})})}
    keys = draw(st.lists(st.sampled_from(sorted(opts)), unique=True, min_size=1, max_size=5))
    conf = {k: draw(opts[k]) for k in keys}
    return {"conf": conf, "arrays": [k for k in ("args", "times_for_solution") if k in conf and draw(st.booleans())], "way": draw(st.sampled_from(["kw", "dict"])), "inner": draw(st.booleans()),
            "side": draw(st.sampled_from(["user", "user", "simulation"]))}


def plain(x):
    """the same, of numbers, strings, lists and dictionaries only"""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def disturb(x):
    """change every container within x, in place"""
    for k in (list(x) if isinstance(x, dict) else range(len(x))):
        if isinstance(x[k], (dict, list, np.ndarray)):
            disturb(x[k])
        else:
            x[k] = "Z" if isinstance(x[k], str) else 77.0
    if isinstance(x, dict):
        x["more"] = 1
    elif isinstance(x, list):
        x.append("more")


def body_own(case, rec):
    """neither the user nor another simulation changes what a simulation was given"""
    import copy
    conf = copy.deepcopy(case["conf"])
    for k in case["arrays"]:
        conf[k] = np.array(conf[k])
    sims = [M.Simulation("s%d" % i, "", _Prob()) for i in range(2)]
    for s in sims:
        if case["way"] == "kw":
            s.setConfigurations(**conf)
        else:
            s.setConfigurations(definition_dict=conf)
    want = {**copy.deepcopy(DEFAULTS), **case["conf"]}
    check(plain(sims[0].configurations) == want, "configurations %s, given %s", plain(sims[0].configurations), want)
    if case["side"] == "user":
        for v in conf.values():
            disturb(v)
        for s in sims:
            check(plain(s.configurations) == want, "a later change by the user reached the simulation: %s", {k: v for k, v in plain(s.configurations).items() if v != want.get(k)})
    else:
        for v in sims[0].configurations.values():
            if isinstance(v, (dict, list, np.ndarray)):
                disturb(v)
        check(plain(conf) == case["conf"], "a change in the simulation reached the user's: %s", plain(conf))
        check(plain(sims[1].configurations) == want, "a change in one simulation reached another: %s", {k: v for k, v in plain(sims[1].configurations).items() if v != want.get(k)})
        t = M.Simulation("t", "", _Prob())
        t.setConfigurations()
        check(plain(t.configurations) == DEFAULTS, "defaults %s", plain(t.configurations))
    rec.label(case["way"], case["side"], *(["arrays"] if case["arrays"] else []), *(["nested"] if "configuration_args" in conf else []))
    rec.nt(len(conf) >= 2)


SUBS = [
    Sub("ownership", strategy_own, body_own, 200, 2000,
        "random configurations with containers within containers and arrays, given to two simulations: later changes by the user reach no simulation, changes in one simulation reach neither the user nor "
        "the other; non-trivial: two or more settings", shards=2),
    Sub("settings", strategy, body, 400, 4000,
        "random histories of configurations on two simulations by keywords, dictionary and file, with dumps: each simulation has defaults overridden by keywords overridden by "
        "dictionary or file, its own containers, and a dump that loads back; non-trivial: two or more settings", shards=4),
    Sub("equivalence", strategy_run, body_run, 100, 1000,
        "the same configurations given by keywords, by dictionary, by file, by a dumped file and split among keywords and dictionary give the same results for random problems; non-trivial: solved", shards=6),
]
ASSUMPTIONS = []
