"""C21 an optimization reports the best point it evaluated, within the bounds."""
import json
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods

S = sloth()
M = mods()
LOG = []
SMALL = {"number_of_individuals": 8, "number_of_generations": 6}


def opt():
    import importlib
    return importlib.import_module("src.sloth.optimization")


def seed(n):
    import pygmo as pg
    pg.set_global_rng_seed(n)


@st.composite
def strategy(draw):
    dim = draw(st.integers(1, 3))
    lo = [draw(st.integers(-12, 8)) / 4 for _ in range(dim)]
    hi = [a + draw(st.sampled_from([0.5, 1.0, 2.0, 5.0])) for a in lo]
    # the optimum inside or outside the bounds
    c = [a + (b - a) * draw(st.sampled_from([-0.5, 0.0, 0.25, 0.5, 0.9, 1.5])) for a, b in zip(lo, hi)]
    return {"dim": dim, "lo": lo, "hi": hi, "c": c, "w": [draw(st.sampled_from([0.5, 1.0, 3.0])) for _ in range(dim)], "offset": draw(st.sampled_from([0.0, -7.0, 10.0])),
            "optimizer": draw(st.sampled_from(["de", "sade", "ga", "pso"])), "max": draw(st.sampled_from(["no", "no", "problem", "optimization", "both"])),
            "bounds": draw(st.sampled_from(["list", "tuple", "array", "problem", "dict", "dict"])), "seed": draw(st.integers(1, 10 ** 6)),
            "conf": draw(st.sampled_from(["dict", "file", "partial"])), "gens": draw(st.sampled_from([1, 6, 12])), "size": draw(st.sampled_from([8, 12])),
            "again": draw(st.booleans()), "scalar_bounds": draw(st.booleans()), "simulate": draw(st.booleans())}


def make_sim(case, specified=True):
    """a linear problem whose parameters p_i shift the unknowns x_i"""
    class Mod(M.Model):
        def __init__(self, name, description=""):
            super().__init__(name, description)
            self.x = [self.createVariable("x%d" % i, mk_unit(ZERO), "") for i in range(case["dim"])]
            self.p = [self.createParameter("p%d" % i, mk_unit(ZERO), "") for i in range(case["dim"])]
            for i, p in enumerate(self.p):
                p.setValue(100.0 + i)

        def DeclareEquations(self):
            for i in range(case["dim"]):
                self.createEquation("e%d" % i, "", self.x[i]() - self.p[i]() + case["c"][i])
    m = Mod("M", "")
    m()
    prob = M.Problem("p", "")
    prob.addModels(m)
    prob.resolve()
    sim = M.Simulation("s", "", prob)
    sim.setConfigurations(linear_solver="scipy")
    return sim, m


def value(case, x):
    f = sum(w * (a - c) ** 2 for w, a, c in zip(case["w"], x, case["c"])) + case["offset"]
    return -f if case["max"] != "no" else f


def make_problem_class():
    O = opt()

    class OP(O.OptimizationProblem):
        case = None

        def DeclareObjectiveFunction(self, x):
            c = OP.case
            xs = [float(v) for v in np.atleast_1d(x)]
            if c["simulate"]:
                s = self.simulation_instance
                for i, v in enumerate(xs):
                    s["p%d_M" % i].setValue(v)
                s.problem.resolve()
                s.setConfigurations(definition_dict=self.simulation_configuration)
                s.runSimulation(show_output_msg=False, show_final_residuals=False)
                r = s.getResults("dict")
                d = [float(r["x%d_M" % i]) for i in range(c["dim"])]
                f = sum(w * a ** 2 for w, a in zip(c["w"], d)) + c["offset"]
                f = -f if c["max"] != "no" else f
                s.reset()
            else:
                f = value(c, xs)
            LOG.append((xs, f))
            return [f]
    return OP


def body(case, rec):
    case = dict(case)
    if case["simulate"]:
        case["gens"], case["size"] = min(case["gens"], 3), 7 if case["optimizer"] == "sade" else 6
        if case["optimizer"] in ("de", "ga", "sade"):
            case["size"] = 8
    O = opt()
    # (an algorithm takes its seed when it is made)
    seed(case["seed"])
    OP = make_problem_class()
    OP.case = case
    sim, m = make_sim(case)
    before = [p.value for p in m.p]
    kw = {"is_maximization": True} if case["max"] in ("problem", "both") else {}
    # by name, in any order
    byname = [(p.name, (a, z)) for p, a, z in zip(m.p, case["lo"], case["hi"])]
    random_order = byname[::-1] if case["seed"] % 3 else byname[1:] + byname[:1]
    bl, bh = case["lo"], case["hi"]
    b = {"list": [bl, bh], "tuple": (bl, bh), "array": np.array([bl, bh]), "problem": None, "dict": dict(random_order)}[case["bounds"]]
    if case["dim"] == 1 and case["scalar_bounds"] and case["bounds"] != "dict":
        b = None if b is None else [bl[0], bh[0]]
    if case["bounds"] == "problem":
        kw["bounds"] = (bl, bh)
    op = OP(case["dim"], name="o", **kw)
    op()
    conf = {"number_of_individuals": case["size"], "number_of_generations": case["gens"]}
    d = None
    try:
        if case["conf"] == "file":
            d = tempfile.mkdtemp(prefix="c21_")
            f = os.path.join(d, "o.json")
            json.dump(conf, open(f, "w"))
            oc = f
        elif case["conf"] == "partial":
            oc = {**conf, "crossover_rate": 0.7}
        else:
            oc = conf
        okw = {"is_maximization": True} if case["max"] in ("optimization", "both") else {}
        names = list(m.p) if case["dim"] % 2 else [p.name for p in m.p]
        study = O.Optimization(simulation=sim, optimization_problem=op, optimization_parameters=names, constraints=b, optimizer=case["optimizer"],
                               optimization_configuration=oc, **okw)
        if d:
            g = os.path.join(d, "saved.json")
            study.saveConfigurations(g)
            saved = json.load(open(g))
            check(saved == study.optimization_configuration and all(saved[k] == v for k, v in conf.items()), "saved configurations %s", saved)
    finally:
        if d:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
    try:
        study.getResults()
    except Exception:  # noqa
        pass
    else:
        raise Violation("results before running")
    for _ in range(2 if case["again"] and not case["simulate"] else 1):
        LOG.clear()
        seed(case["seed"])
        study.runOptimization(print_output=False, optimization_log=True)
        x, f = study.getResults()
        x, f = [float(v) for v in x], float(f[0])
        check(study.run_sucessful is True, "not marked successful")
        check(len(x) == case["dim"], "%d parameters reported, the problem has %d", len(x), case["dim"])
        for v, a, z in zip(x, bl, bh):
            check(a - 1e-12 <= v <= z + 1e-12, "reported %r outside of the bounds [%r, %r]", v, a, z)
        for xs, fv in LOG:
            check(all(a - 1e-12 <= v <= z + 1e-12 for v, a, z in zip(xs, bl, bh)), "evaluated %s outside of the bounds %s %s", xs, bl, bh)
            check(abs(fv - value(case, xs)) <= 1e-6 * (1 + abs(fv)), "the objective at %s is %r through the simulation, %r directly", xs, fv, value(case, xs))
        check(len(LOG) >= case["size"], "%d evaluations for %d individuals", len(LOG), case["size"])
        check(abs(f - value(case, x)) <= 1e-6 * (1 + abs(f)), "reported fitness %r, the objective at the reported point is %r", f, value(case, x))
        best = (max if case["max"] != "no" else min)(v for _, v in LOG)
        check(abs(f - best) <= 1e-9 * (1 + abs(best)), "reported %r, the best of %d evaluations is %r", f, len(LOG), best)
        sense = "maximization" if case["max"] != "no" else "minimization"
        rec.label(case["optimizer"], sense, "bounds_" + case["bounds"])
        log = study.getOptimizationLog()
        check(list(log.columns)[:2] == ["Gen", "Fevals"], "log columns %s", list(log.columns))
    check([p.value for p in m.p] == before or case["simulate"], "parameters changed")
    if not case["simulate"] and case["gens"] == 12:
        # progress: a population evolved over 12 generations beats the mean of its initial random points
        init = [v for _, v in LOG[:case["size"]]]
        mean = sum(init) / len(init)
        check((f - mean) * (1 if sense == "maximization" else -1) >= -1e-9, "after evolving, %r is worse than the mean of the initial points %r (%s)", f, mean, sense)
    rec.nt(case["dim"] >= 2)


@st.composite
def strategy_progress(draw):
    c = draw(strategy())
    c.update(simulate=False, bounds="list", gens=draw(st.sampled_from([2, 5, 9])), frequency=draw(st.sampled_from([0, 1, 2])), graph=draw(st.booleans()), log=draw(st.booleans()))
    return c


class Figures:
    """what is drawn in the figures that are saved"""
    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.figure
        self.cls, self.old, self.seen = matplotlib.figure.Figure, matplotlib.figure.Figure.savefig, []

        def savefig(fig, name, *a, **k):
            self.seen.append((str(name), [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)) for ax in fig.axes for l in ax.lines]))
            return self.old(fig, name, *a, **k)
        self.cls.savefig = savefig
        return self

    def __exit__(self, *a):
        self.cls.savefig = self.old


def body_progress(case, rec):
    """the log and the graph of a run show the run"""
    import shutil
    O = opt()
    # (an algorithm takes its seed when it is made)
    seed(case["seed"])
    OP = make_problem_class()
    OP.case = case
    sim, m = make_sim(case)
    op = OP(case["dim"], name="o", **({"is_maximization": True} if case["max"] in ("problem", "both") else {}))
    op()
    study = O.Optimization(simulation=sim, optimization_problem=op, optimization_parameters=list(m.p), constraints=[case["lo"], case["hi"]], optimizer=case["optimizer"],
                           optimization_configuration={"number_of_individuals": case["size"], "number_of_generations": case["gens"]},
                           **({"is_maximization": True} if case["max"] in ("optimization", "both") else {}))
    LOG.clear()
    seed(case["seed"])
    here, d = os.getcwd(), tempfile.mkdtemp(prefix="c21_")
    try:
        os.chdir(d)
        with Figures() as figs:
            study.runOptimization(print_output=False, report_frequency=case["frequency"], optimization_log=case["log"], save_optimization_graph=case["graph"])
        files = sorted(os.listdir(d))
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    f = float(study.getResults()[1][0])
    check(study.run_sucessful is True, "not marked successful")
    better = max if case["max"] != "no" else min
    best = better(v for _, v in LOG)
    check(abs(f - best) <= 1e-9 * (1 + abs(best)), "reported %r, the best of %d evaluations is %r", f, len(LOG), best)
    check(len(files) == (1 if case["graph"] else 0) and len(figs.seen) == len(files), "files %s", files)
    col = "gbest" if case["optimizer"] == "pso" else "Best"

    def progress(evals, values, what):
        check(len(evals) == len(values), "%s: lengths", what)
        check(all(b >= a for a, b in zip(evals, evals[1:])) and all(0 < e <= len(LOG) for e in evals), "%s: numbers of evaluations %s of %d", what, evals, len(LOG))
        ev_ = [v for _, v in LOG]
        for e, v in zip(evals, values):
            check(any(abs(v - w) <= 1e-9 * (1 + abs(w)) for w in ev_), "%s: the best of a generation is %r, which no evaluation gave", what, v)
    if case["log"]:
        log = study.getOptimizationLog()
        # (the genetic algorithm may log improvements only)
        check(len(log) > 0 or case["frequency"] == 0 or case["optimizer"] == "ga", "an empty log")
        gens = [int(g) for g in log["Gen"]]
        check(all(b > a for a, b in zip(gens, gens[1:])), "generations %s", gens)
        progress([int(e) for e in log["Fevals"]], [float(v) for v in log[col]], "log")
    if case["graph"]:
        check(files[0].endswith(".png") and len(figs.seen[0][1]) == 1, "%d lines in the graph", len(figs.seen[0][1]))
        xs, ys = figs.seen[0][1][0]
        check(len(xs) >= 1 or case["optimizer"] == "ga", "an empty graph")
        progress([int(e) for e in xs], [float(v) for v in ys], "graph")
        if case["log"]:
            check(np.allclose(xs, log["Fevals"].astype(float)) and np.allclose(ys, log[col].astype(float)), "the graph is not that of the log")
    rec.label(case["optimizer"], "frequency=%d" % case["frequency"], *(["graph"] if case["graph"] else []), *(["max"] if case["max"] != "no" else []))
    rec.nt(case["graph"] or case["frequency"] > 0)


# the options of each algorithm, and where the algorithm shows them
OPTIONS = {
    "de": {"number_of_generations": ("Generations", [1, 7, 40]), "crossover_rate": ("Parameter CR", [0.2, 0.65, 0.9]), "scale_factor": ("Parameter F", [0.3, 0.5, 0.85]),
           "variant_de": ("Variant", [1, 2, 5, 10]), "ftol_de": ("Stopping ftol", [1e-3, 1e-5, 0.25]), "xtol_de": ("Stopping xtol", [1e-3, 1e-5, 0.125])},
    "sade": {"number_of_generations": ("Generations", [1, 7, 40]), "ftol_de": ("Stopping ftol", [1e-3, 1e-5, 0.25]), "xtol_de": ("Stopping xtol", [1e-3, 1e-5, 0.125])},
    "ga": {"number_of_generations": ("Number of generations", [1, 7, 40]), "crossover_rate": ("Crossover/Probability", [0.2, 0.65, 0.9]), "mutation_rate": ("Mutation/Probability", [0.04, 0.3, 0.7]),
           "crossover_type": ("Crossover/Type", ["exponential", "binomial", "single"]), "mutation_type": ("Mutation/Type", ["gaussian", "uniform", "polynomial"]),
           "selection_type": ("Selection/Type", ["tournament", "truncated"]), "selection_param": ("Selection/", [2, 3, 5])},
    "pso": {"number_of_generations": ("Generations", [1, 7, 40]), "omega_pso": ("Omega", [0.3, 0.5, 0.9]), "eta1_pso": ("Eta1", [0.5, 1.75, 3.0]), "eta2_pso": ("Eta2", [0.75, 1.5, 3.5]),
            "variant_pso": ("Variant", [1, 3, 5, 6]), "max_v_pso": ("Maximum velocity", [0.1, 0.4, 0.8]), "neighborhood_type_pso": ("Topology", [1, 2, 3]),
            "neighborhood_param_pso": ("Topology parameter", [2, 3, 5])},
}
# what the documentation gives as the values of the options that are not set
DEFAULTS = {"number_of_generations": 600, "crossover_rate": .6, "mutation_rate": .04, "crossover_type": "exponential", "mutation_type": "gaussian", "selection_type": "tournament", "selection_param": 4,
            "scale_factor": .5, "variant_de": 10, "ftol_de": 1e-8, "xtol_de": 1e-8, "omega_pso": 0.7298, "eta1_pso": 2.05, "eta2_pso": 2.05, "variant_pso": 5, "max_v_pso": 0.5,
            "neighborhood_type_pso": 2, "neighborhood_param_pso": 4}


@st.composite
def strategy_algorithm(draw):
    c = draw(strategy())
    o = draw(st.sampled_from(sorted(OPTIONS)))
    others = draw(st.sampled_from(sorted(OPTIONS)))
    conf = {}
    for algo in {o, others}:
        for k, (_, vals) in OPTIONS[algo].items():
            if draw(st.integers(0, 2)) > 0:
                conf[k] = draw(st.sampled_from(vals))
    if draw(st.booleans()):
        conf["number_of_individuals"] = draw(st.sampled_from([8, 30]))
    c.update(optimizer=o, algorithm=conf, given=draw(st.sampled_from(["dict", "file"])) if conf else draw(st.sampled_from(["dict", "file", "none"])), simulate=False,
             sim_conf=draw(st.sampled_from(["simulation", "dict", "file", "absent"])), sim_opts=draw(st.sampled_from([{"linear_solver": "numpy"}, {"linear_solver": "sympy", "print_output": False}, {}])),
             run=draw(st.integers(0, 3)) == 0)
    return c


def shown_options(text):
    """what an algorithm says of itself: {title, or group/title: value}"""
    out, group = {}, None
    for line in text.split("\n"):
        depth, line = len(line) - len(line.lstrip("\t")), line.strip()
        if not line:
            continue
        k, _, v = line.partition(":")
        if not v.strip():
            group = k
            continue
        if depth < 2:
            group = None
        out[(group + "/" if group else "") + k] = v.strip()
        if group == "Selection" and k != "Type":
            out["Selection/"] = v.strip()
    return out


def body_algorithm(case, rec):
    """the algorithm has the options of the configuration; the objective gets the configuration of the simulation"""
    import shutil
    O = opt()
    seed(case["seed"])
    got = []

    class OP(O.OptimizationProblem):
        def DeclareObjectiveFunction(self, x):
            got.append((self.simulation_instance, self.simulation_configuration))
            return [value(case, [float(v) for v in np.atleast_1d(x)])]
    sim, m = make_sim(case)
    op = OP(case["dim"], name="o")
    op()
    d = tempfile.mkdtemp(prefix="c21_")
    try:
        conf = dict(case["algorithm"])
        oc = conf
        if case["given"] == "file":
            oc = os.path.join(d, "o.json")
            json.dump(conf, open(oc, "w"))
        elif case["given"] == "none":
            oc = None
        sc = dict(case["sim_opts"])
        if case["sim_conf"] == "dict":
            skw = {"simulation_configuration": sc}
        elif case["sim_conf"] == "file":
            f = os.path.join(d, "s.json")
            json.dump(sc, open(f, "w"))
            skw = {"simulation_configuration": f}
        else:
            skw = {}
        if case["sim_conf"] == "absent":
            sim = M.Simulation("t", "", sim.problem)
        kept = dict(conf)
        make = lambda: O.Optimization(simulation=sim, optimization_problem=op, optimization_parameters=list(m.p), constraints=[case["lo"], case["hi"]], optimizer=case["optimizer"],  # noqa
                                      optimization_configuration=oc, **skw)
        if case["sim_conf"] == "absent" and sim.configurations is None:
            try:
                make()
            except Exception:  # noqa
                rec.label("refused")
                rec.nt(True)
                return
            raise Violation("an optimization of a simulation without configurations was accepted")
        study = make()
        g = os.path.join(d, "saved.json")
        study.saveConfigurations(g)
        saved = json.load(open(g))
        again = O.Optimization(simulation=sim, optimization_problem=op, optimization_parameters=list(m.p), constraints=[case["lo"], case["hi"]], optimizer=case["optimizer"],
                               optimization_configuration=g, **skw)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    check(conf == kept, "the dictionary of the user is %s now", conf)
    whole = {**DEFAULTS, "number_of_individuals": 100, **conf}
    check(all(saved[k] == v for k, v in whole.items()), "saved %s, expected %s", saved, whole)
    for s in (study, again):
        shown = shown_options(s.optimization_mechanism.get_extra_info())
        for k, (title, _) in OPTIONS[case["optimizer"]].items():
            if title == "Topology parameter" and whole["neighborhood_type_pso"] not in (2, 4):
                continue  # (has none)
            check(title in shown, "the algorithm shows no %r: %s", title, shown)
            v = shown[title]
            ok = v == whole[k] if isinstance(whole[k], str) else abs(float(v) - whole[k]) <= 1e-6
            check(ok, "%s of %s is %s, configured as %r", title, case["optimizer"], v, whole[k])
    if case["run"] and whole["number_of_individuals"] >= 8 and whole["number_of_generations"] <= 40 and whole["number_of_individuals"] <= 30:
        study.runOptimization(print_output=False, optimization_log=False)
        want = dict(sim.configurations) if case["sim_conf"] in ("simulation", "absent") else sc
        check(len(got) > 0 and all(a.name == sim.name and a.problem.name == sim.problem.name and dict(b) == want for a, b in got), "the objective was given other configurations of the simulation than %s: %s", want, got[:1])
        check(len(got) >= whole["number_of_individuals"], "%d evaluations", len(got))
        if case["optimizer"] == "pso":
            check(len(got) == whole["number_of_individuals"] * whole["number_of_generations"] or len(got) == whole["number_of_individuals"] * (whole["number_of_generations"] + 1),
                  "%d evaluations of %d individuals in %d generations", len(got), whole["number_of_individuals"], whole["number_of_generations"])
        rec.label("run")
    rec.label(case["optimizer"], case["given"], "sim:" + case["sim_conf"])
    rec.nt(len(conf) >= 2)


@st.composite
def strategy_studies(draw):
    c = draw(strategy())
    c.update(simulate=False, max=draw(st.sampled_from(["no", "problem"])), own_bounds=draw(st.booleans()),
             studies=[{"shift": [draw(st.sampled_from([-3.0, 0.0, 0.25, 4.0])) for _ in range(c["dim"])], "scale": draw(st.sampled_from([0.25, 0.5, 1.0])),
                       "optimizer": draw(st.sampled_from(["de", "sade", "ga", "pso"])), "how": draw(st.sampled_from(["given", "set"]))} for _ in range(draw(st.integers(1, 3)))])
    return c


def body_studies(case, rec):
    """several studies of one problem, each within its own bounds, which are narrower than those of the problem"""
    O = opt()
    OP = make_problem_class()
    OP.case = case
    sim, m = make_sim(case)
    kw = {"is_maximization": True} if case["max"] != "no" else {}
    if case["own_bounds"]:
        kw["bounds"] = ([a - 50.0 for a in case["lo"]], [b + 50.0 for b in case["hi"]])
    op = OP(case["dim"], name="o", **kw)
    op()
    made = []
    for s in case["studies"]:
        seed(case["seed"])
        lo = [a + d for a, d in zip(case["lo"], s["shift"])]
        hi = [a + (b - c) * s["scale"] for a, b, c in zip(lo, case["hi"], case["lo"])]
        args = {"constraints": [lo, hi]} if s["how"] == "given" else {}
        study = O.Optimization(simulation=sim, optimization_problem=op, optimization_parameters=list(m.p), optimizer=s["optimizer"],
                               optimization_configuration={"number_of_individuals": case["size"], "number_of_generations": 3}, **args)
        if s["how"] == "set":
            study.setConstraints([lo, hi])
        made.append((study, lo, hi))
    results = []
    # (made first, run in turns, the first one again at the end)
    for study, lo, hi in made + made[:1]:
        LOG.clear()
        study.runOptimization(print_output=False, optimization_log=False)
        x, f = study.getResults()
        x, f = [float(v) for v in x], float(f[0])
        for xs, fv in LOG + [(x, f)]:
            check(all(a - 1e-12 <= v <= z + 1e-12 for v, a, z in zip(xs, lo, hi)), "evaluated %s outside of the bounds %s %s of this study", xs, lo, hi)
        best = (max if case["max"] != "no" else min)(v for _, v in LOG)
        check(abs(f - best) <= 1e-9 * (1 + abs(best)), "reported %r, the best of %d evaluations is %r", f, len(LOG), best)
        check(abs(f - value(case, x)) <= 1e-9 * (1 + abs(f)), "reported fitness %r, the objective at the reported point is %r", f, value(case, x))
        results.append((study, x, f))
    for study, x, f in results[1:]:
        y, g = study.getResults()
        check([float(v) for v in y] == x and float(g[0]) == f, "the results of a study changed with another study")
    rec.label("studies=%d" % len(made), *(["own_bounds"] if case["own_bounds"] else []))
    rec.nt(len(made) >= 2)


SUBS = [
    Sub("studies", strategy_studies, body_studies, 60, 800,
        "one to three studies of one problem with different bounds (narrower than those of the problem), algorithms and directions, run in turns: each evaluates within its own bounds, reports its own best "
        "evaluation and keeps its results; non-trivial: two or more studies", shards=2),
    Sub("algorithm", strategy_algorithm, body_algorithm, 120, 1500,
        "random optimization configurations (dictionary, file, none, saved and read back): the algorithm shows the options it was configured with and the documented defaults for the others, the user's "
        "dictionary is left alone, and the objective is given the simulation and its configuration (the simulation's own, a dictionary or a file); non-trivial: two or more options set", shards=3),
    Sub("progress", strategy_progress, body_progress, 60, 600,
        "random quadratic objectives, directions and algorithms with every reporting option: the log and the saved graph show numbers of evaluations made and best values that some "
        "evaluation gave, in the sense of the objective; non-trivial: a graph, or a reporting frequency", shards=4),
    Sub("best", strategy, body, 200, 2000,
        "random quadratic objectives (direct, or through a simulation whose parameters are optimized), bounds, directions and algorithms: bounds respected, the reported fitness is the objective at "
        "the reported point and the best of all evaluations; non-trivial: two or more dimensions", shards=7),
]
ASSUMPTIONS = ["convergence to the optimum is not demanded: the evolutionary algorithms are third-party (pygmo)"]
