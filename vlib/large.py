"""problems of many unknowns in a few models, described by a few numbers"""
import numpy as np
from hypothesis import strategies as st

from .gen import *  # noqa
from .runner import check
from .systems import mods

S = sloth()
M = mods()


@st.composite
def strategy(draw, nonlinear, max_n):
    n = draw(st.integers(5, max_n))
    return {"n": n, "models": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 999)), "density": draw(st.sampled_from([0.1, 0.3, 0.6])), "names": draw(st.sampled_from(["v%d", "%dv", "v_%d", "y%d"])),
            "perm": draw(st.permutations(list(range(n)))), "eqs": draw(st.permutations(list(range(n)))),
            "solver": draw(st.sampled_from(["symbolicsys", None] if nonlinear else ["sympy", "scipy", "symbolicsys", None])), "by": draw(st.sampled_from(["numbers", "parameters"]))}


def make(case, nonlinear):
    """A x + c x^3 = b over unknowns divided among models; a model that needs the unknowns of another has copies of them, joined by connections"""
    n, k = case["n"], min(case["models"], case["n"])
    rng = np.random.default_rng(case["seed"])
    A = np.round(rng.uniform(-1, 1, (n, n)) * 8) / 8 * (rng.uniform(size=(n, n)) < case["density"])
    A = A * np.where(rng.uniform(size=(n, n)) < 0.3, 1 / 4096, 1.0)
    for i in range(n):
        A[i, i] = np.sum(np.abs(A[i])) + 1
    c = np.round(rng.uniform(0, 1, n) * 4) / 8 * (rng.uniform(size=n) < 0.6) if nonlinear else np.zeros(n)
    if nonlinear and not c.any():
        c[0] = 0.5
    x = np.round(rng.uniform(-2, 2, n) * 16) / 16
    home = [i % k for i in range(n)]
    sol, conns, models, names = {}, [], [], {}
    for h in range(k):
        m = M.Model("M%d" % h, "")
        need = sorted({j for i in range(n) if home[i] == h for j in range(n) if A[i, j]} | {i for i in range(n) if home[i] == h})
        need = [j for j in case["perm"] if j in need]
        v = {}
        for j in need:
            nm = case["names"] % j if home[j] == h else "in" + case["names"] % j
            v[j] = m.createVariable(nm, mk_unit(ZERO), "", is_exposed=True, type="output" if home[j] == h else "input")
            sol["%s_M%d" % (nm, h)] = float(x[j])
            if home[j] == h:
                names[j] = v[j]
            else:
                conns.append((j, h, v[j]))
        for i in case["eqs"]:
            if home[i] != h:
                continue
            e = None
            for j in need:
                if A[i, j]:
                    t = v[j]() * float(A[i, j])
                    e = t if e is None else e + t
            if c[i]:
                e = e + float(c[i]) * v[i]() ** 3
            b = float(A[i] @ x + c[i] * x[i] ** 3)
            if case["by"] == "parameters":
                p = m.createParameter("b%d" % i, mk_unit(ZERO), "")
                p.setValue(b)
                e = e - p()
            else:
                e = e - b
            m.createEquation("e%d" % i, "", e)
        models.append(m)
    prob = M.Problem("p", "")
    prob.addModels(models)
    for z, (j, h, w) in enumerate(conns):
        if z % 2:
            prob.createConnection("", models[h], names[j](), w())
        else:
            prob.createConnection(models[home[j]], models[h], names[j], w)
    prob.resolve()
    return prob, sol


def body(nonlinear):
    def run(case, rec):
        prob, sol = make(case, nonlinear)
        check(prob._getProblemType() == ("nonlinear" if nonlinear else "linear"), "the problem is typed %s", prob._getProblemType())
        dof = M.analysis.DOF_Analysis(prob)
        check(dof._dofTest() is True, "a problem of %d equations for as many unknowns is refused", len(sol))
        sim = M.Simulation("s", "", prob)
        if nonlinear:
            g = np.random.default_rng(case["seed"] + 1).uniform(-0.01, 0.01, len(sol))
            sim.setConfigurations(nonlinear_solver=case["solver"], initial_guess={k: v + d for (k, v), d in zip(sol.items(), g)})
        else:
            sim.setConfigurations(linear_solver=case["solver"])
        sim.runSimulation(show_final_residuals=False)
        r = sim.getResults("dict")
        check(set(r) == set(sol), "the results name %d unknowns, there are %d", len(r), len(sol))
        for k in sol:
            check(abs(float(r[k]) - sol[k]) <= (1e-3 if nonlinear else 1e-6) * (1 + abs(sol[k])), "solver %s: %s = %r, the solution is %r", case["solver"], k, float(r[k]), sol[k])
        rec.label("n=%d" % len(sol), "solver=%s" % case["solver"], "models=%d" % case["models"])
        rec.nt(len(sol) > 10)
    return run
