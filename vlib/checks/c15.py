"""C15 linear problems: the solution, from every solver."""
import numpy as np
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa
from .. import large

S = sloth()
M = mods()


# numbers that are neither short nor simple fractions
ROUGH = [3.14159265, 0.1234567, 1 / 3, -0.0271828, 1.0001, 1e-3 / 7, 101.325, -0.333, 2.0]


@st.composite
def strategy(draw):
    s = draw(system(max_models=3, max_vars=draw(st.sampled_from([1, 2, 3, 5])), coefs=draw(st.sampled_from([None, ROUGH, ROUGH]))))
    s["guess"] = draw(st.sampled_from([None, None, "some"]))
    s["show"] = draw(st.booleans())
    s["reuse"] = draw(st.booleans())
    return s



def body(case, rec):
    sol = solution(case)
    prob = None
    for solver in ("default", None, "sympy", "scipy", "symbolicsys"):
        if prob is None or not case["reuse"]:
            prob, ms = make_problem(case)
            prob.resolve()
        sim = M.Simulation("s", "", prob)
        kw = {} if solver == "default" else {"linear_solver": solver}
        if case["guess"] and solver in ("default", "symbolicsys"):
            kw["initial_guess"] = {k: 3.5 for k in sol}
        check(prob._getProblemType() == "linear", "a linear problem is typed %s", prob._getProblemType())
        sim.setConfigurations(**kw)
        sim.runSimulation(show_final_residuals=case["show"])
        r = sim.getResults("dict")
        check(set(r) == set(sol), "results of solver %s name %s, the unknowns are %s", solver, sorted(r), sorted(sol))
        for k in sol:
            check(abs(float(r[k]) - sol[k]) <= 1e-6 * (1 + abs(sol[k])), "solver %s: %s = %r, the solution is %r", solver, k, float(r[k]), sol[k])
        for n, res, err, sc in all_residuals(case, {k: float(v) for k, v in r.items()}):
            check(abs(res) <= 1e-6 * sc, "solver %s leaves residual %r in %s", solver, res, n)
        # the list is the same numbers
        check(sorted(sim.getResults("list")) == sorted(float(x) for x in r.values()), "list and dict results differ")
        check(sim.getStatus() == 0, "status %s", sim.getStatus())
    rec.label("models=%d" % len(case["models"]), "n=%d" % len(sol), *(["conn"] if case["conns"] else []))
    rec.nt(len(sol) >= 3)


@st.composite
def strategy_scales(draw):
    n = draw(st.integers(2, 4))
    A = [[draw(st.integers(-9, 9)) / 8 for _ in range(n)] for _ in range(n)]
    for i in range(n):
        A[i][i] = (sum(abs(x) for j, x in enumerate(A[i]) if j != i) + draw(st.sampled_from([0.5, 1, 3]))) * draw(st.sampled_from([1, -1]))
    return {"A": A, "order": draw(st.permutations(list(range(n)))), "rows": [draw(st.sampled_from([1e-4, 1e-2, 1.0, 1.0, 1e3, 1e5])) for _ in range(n)],
            "mag": [draw(st.sampled_from([1e-3, 1.0, 1.0, 1e3])) for _ in range(n)], "xi": [draw(st.integers(-20, 20).filter(bool)) / 8 for _ in range(n)]}


def body_scales(case, rec):
    """equations and unknowns of different orders of magnitude, as with pascals beside mole fractions"""
    n, A, mag = len(case["A"]), case["A"], case["mag"]
    x = [a * b for a, b in zip(case["xi"], mag)]
    for solver in ("sympy", "scipy", "symbolicsys"):
        m = M.Model("M", "")
        v = [m.createVariable("v%d" % i, mk_unit(ZERO), "") for i in range(n)]
        for i in case["order"]:
            c = [A[i][j] * case["rows"][i] / mag[j] for j in range(n)]
            e = None
            for j in range(n):
                if c[j]:
                    e = v[j]() * c[j] if e is None else e + v[j]() * c[j]
            m.createEquation("e%d" % i, "", e - sum(a * b for a, b in zip(c, x)))
        prob = M.Problem("p", "")
        prob.addModels(m)
        prob.resolve()
        sim = M.Simulation("s", "", prob)
        sim.setConfigurations(linear_solver=solver)
        try:
            sim.runSimulation(show_final_residuals=False)
        except S.err.NumericalError:
            # the iterative method may give up, with no result, where the magnitudes differ much
            if solver == "symbolicsys" and np.linalg.cond([[A[i][j] * case["rows"][i] / mag[j] for j in range(n)] for i in range(n)]) > 1e4:
                check(sim.output is None, "a result without convergence")
                rec.label("refused_ill_conditioned")
                continue
            raise
        r = sim.getResults("dict")
        check(set(r) == {"v%d_M" % i for i in range(n)}, "solver %s names %s", solver, sorted(r))
        for i in range(n):
            check(abs(float(r["v%d_M" % i]) / mag[i] - case["xi"][i]) <= 1e-5 * (1 + max(abs(z) for z in case["xi"])), "solver %s: unknown %d is %r, the solution is %r", solver, i, float(r["v%d_M" % i]), x[i])
    rec.label("span=%g" % (max(case["rows"]) / min(case["rows"])))
    rec.nt(max(case["rows"]) > min(case["rows"]) or len(set(mag)) > 1)



@st.composite
def strategy_singular(draw):
    n = draw(st.integers(2, 4))
    kind = draw(st.sampled_from(["integers", "tenths", "thirds"]))
    num = st.integers(-9, 9).filter(bool).map(lambda k: {"integers": k, "tenths": k / 10 + 0.7, "thirds": k / 3}[kind])
    num0 = st.one_of(num, num, num, st.just(0))
    A = [[draw(num0) for _ in range(n)] for _ in range(n - 1)]
    c = [draw(num0) for _ in range(n - 1)]
    at = draw(st.integers(0, n - 1))
    A.insert(at, [sum(k * r[j] for k, r in zip(c, A)) for j in range(n)])
    for j in range(n):
        if not any(r[j] for r in A):
            A[0][j] = 1
    for i, r in enumerate(A):
        if not any(r):
            r[i] = 1
    xs = [draw(num) for _ in range(n)]
    b = [sum(a * x for a, x in zip(r, xs)) for r in A]
    extra = draw(st.one_of(st.none(), num))
    if extra is not None:
        b[at] += extra
    return {"A": A, "b": b, "solver": draw(st.sampled_from(["sympy", "scipy", "symbolicsys", None])), "guess": draw(st.sampled_from([None, 0.0, 2.5])), "again": draw(st.booleans()),
            "consistent": extra is None}


def body_singular(case, rec):
    """dependent or contradictory equations: a result, if there is one, satisfies them all"""
    import sympy as sp
    n, A, b = len(case["A"]), case["A"], case["b"]
    class Mod(M.Model):
        def DeclareVariables(self):
            self.v = [self.createVariable("v%d" % i, mk_unit(ZERO), "") for i in range(n)]

        def DeclareParameters(self):
            self.p = [self.createParameter("b%d" % i, mk_unit(ZERO), "") for i in range(n)]
            for p, z in zip(self.p, now):
                p.setValue(float(z))

        def DeclareEquations(self):
            for i in range(n):
                e = None
                for j in range(n):
                    if A[i][j]:
                        e = self.v[j]() * A[i][j] if e is None else e + self.v[j]() * A[i][j]
                self.createEquation("e%d" % i, "", e - self.p[i]())
    now = list(b)
    m = Mod("M", "")
    m()
    prob = M.Problem("p", "")
    prob.addModels(m)
    sim = M.Simulation("s", "", prob)
    for turn in range(2 if case["again"] else 1):
        if turn:
            b = [float(b[0]) + 11.0] + list(b[1:])
            now[:] = b
        prob.resolve()
        kw = {} if case["guess"] is None else {"initial_guess": {"v%d_M" % i: case["guess"] for i in range(n)}}
        sim.setConfigurations(linear_solver=case["solver"], **kw)
        try:
            sim.runSimulation(show_output_msg=False, show_final_residuals=False)
        except Exception as e:  # noqa
            check(sim.output is None and sim.getStatus() != 0, "a result after an error: %s", sim.output)
            check("specified (Nb. Degrees" not in str(e), "as many equations as unknowns refused: %s", e)
            rec.label("refused")
            continue
        r = sim.getResults("dict")
        r = {k: sp.sympify(x) for k, x in r.items()}
        check(set(r) <= {"v%d_M" % i for i in range(n)}, "results named %s", sorted(r))
        # (where the solution is not unique, the symbolic solver gives a family of solutions)
        x = [r.get("v%d_M" % i, sp.Symbol("v%d_M" % i)) for i in range(n)]
        free = {f: 0.37 + 0.11 * k for k, f in enumerate(sorted({f for e in x for f in e.free_symbols}, key=str))}
        # (a solution without a value is given in terms of the others)
        x = [e.subs(r).subs(free) for e in x]
        check(all(e.is_number for e in x), "results %s", r)
        x = [float(e) for e in x]
        for i in range(n):
            res = sum(A[i][j] * x[j] for j in range(n)) - b[i]
            size = sum(abs(A[i][j] * x[j]) for j in range(n)) + abs(b[i]) + max(abs(z) for z in x) * 1e-3
            check(abs(res) <= 1e-7 * size, "solver %s: equation %d has the residual %r (its terms are of size %g)", case["solver"], i, res, size)
        rec.label("family" if free else "solution")
    rec.label("solver=%s" % case["solver"], "consistent" if case["consistent"] else "contradictory")
    rec.nt(n >= 3)


SUBS = [
    Sub("solvers_agree", strategy, body, 200, 2000,
        "random nonsingular linear problems (1-3 connected models, several equation shapes) with a chosen solution, run with all four "
        "solver settings: names, values, residuals; non-trivial: three unknowns", shards=7),
    Sub("large", lambda: large.strategy(False, 30), large.body(False), 48, 900,
        "well-conditioned problems of 5 to 30 unknowns (and their copies) in 1 to 3 models joined by connections, with numbers or parameters, one of the solvers each; "
        "non-trivial: more than ten unknowns", shards=4),
]
SUBS.append(
    Sub("scales", strategy_scales, body_scales, 120, 1500,
        "linear problems whose equations (by up to nine orders) and unknowns (by up to six) have different magnitudes, run with the three solvers; non-trivial: the magnitudes differ", shards=4))
SUBS.append(
    Sub("singular", strategy_singular, body_singular, 160, 2000,
        "linear problems with a dependent equation, consistent or contradictory, run with every solver, also again after a change: an error and no result, or values (or a family of values) that "
        "satisfy every equation; non-trivial: three unknowns", shards=4))
ASSUMPTIONS = ["matrices are diagonally dominant by blocks, so that the solution is unique and well-conditioned"]
