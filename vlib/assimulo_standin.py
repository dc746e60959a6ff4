"""Stand-ins for the four assimulo names solvers.py imports (the package is not
installed in this sandbox).  They implement the documented assimulo contract:

* ``Explicit_Problem(rhs, y0, t0=0., name)``; ``CVode(p).simulate(tfinal, ncp_list=ts)``
  integrates ``y' = rhs(t, y)`` from ``t0`` and returns ``(ts, ys)`` at the points asked.
* ``Implicit_Problem(res, y0, yd0, t0=0., name)``; ``IDA(p).simulate(tfinal, ncp, ncp_list)``
  integrates ``res(t, y, yd) = 0`` from consistent initial values and returns
  ``(ts, ys, yds)``.  ``problem.algvar[i]`` is 1.0 when component i of ``y`` is
  differential, 0.0 when algebraic (assimulo's documented meaning);
  ``make_consistent('IDA_YA_YDP_INIT')`` computes the algebraic components of y and
  the derivatives of the differential ones, keeping the differential components.
"""
import numpy as np
from scipy.integrate import solve_ivp
from scipy.optimize import fsolve


class Explicit_Problem:
    def __init__(self, rhs=None, y0=None, t0=0.0, p0=None, sw0=None, name=None):
        self.rhs, self.y0, self.t0, self.name = rhs, np.array(y0, dtype=float), t0, name


class Implicit_Problem:
    def __init__(self, res=None, y0=None, yd0=None, t0=0.0, p0=None, sw0=None, name=None):
        self.res, self.t0, self.name = res, t0, name
        self.y0 = np.array(y0, dtype=float)
        self.yd0 = np.array(yd0, dtype=float)
        self.algvar = np.ones(len(self.y0))


class CVode:
    def __init__(self, problem):
        self.problem = problem

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        p = self.problem
        ts = np.array(ncp_list, dtype=float)
        t0 = p.t0

        def f(t, y):
            return np.array(p.rhs(t, y), dtype=float)
        ys = np.empty((len(ts), len(p.y0)))
        after = ts > t0 + 1e-14
        ys[~after] = p.y0
        if after.any():
            s = solve_ivp(f, (t0, float(ts[-1])), p.y0, method="LSODA", t_eval=ts[after],
                          rtol=1e-9, atol=1e-10)
            if not s.success:
                raise RuntimeError("standin CVode: " + s.message)
            ys[after] = s.y.T
        return list(ts), ys


class IDA:
    calls = []

    def __init__(self, problem):
        self.problem = problem
        self.verbosity = 50
        self.consistent = None

    def _is_diff(self):
        return np.array(self.problem.algvar, dtype=float) > 0.5

    def _solve_point(self, t, ydiff, guess):
        """given the differential components, find algebraic components and derivatives"""
        p = self.problem
        d = self._is_diff()

        def build(u):
            y = np.empty(len(d))
            yd = np.zeros(len(d))
            y[d] = ydiff
            yd[d] = u[d]
            y[~d] = u[~d]
            return y, yd

        def F(u):
            y, yd = build(u)
            return np.array(p.res(t, y, yd), dtype=float).ravel()
        u, info, ier, msg = fsolve(F, guess, xtol=1e-12, full_output=True)
        if np.max(np.abs(F(u))) > 1e-7:
            raise RuntimeError("standin IDA: no consistent point (%s)" % msg)
        return build(u) + (u,)

    def make_consistent(self, method):
        p = self.problem
        d = self._is_diff()
        if len(d) != len(p.y0):
            raise ValueError("algvar must have the same length as y")
        if len(p.yd0) != len(p.y0):
            raise ValueError("yd0 must have the same length as y0")
        guess = np.where(d, p.yd0, p.y0)
        y, yd, u = self._solve_point(p.t0, p.y0[d], guess)
        p.y0, p.yd0 = y, yd
        self._u = u
        return [0, y, yd]

    def simulate(self, tfinal, ncp=0, ncp_list=None):
        p = self.problem
        d = self._is_diff()
        ts = np.array(ncp_list, dtype=float)
        state = {"u": getattr(self, "_u", np.where(d, p.yd0, p.y0))}

        def f(t, yd_):
            y, yd, u = self._solve_point(t, yd_, state["u"])
            state["u"] = u
            return yd[d]
        Y = np.empty((len(ts), len(d)))
        YD = np.empty((len(ts), len(d)))
        y0 = p.y0[d]
        # (the points asked for need not include the initial time)
        ya = np.tile(y0.reshape(-1, 1), (1, len(ts)))
        after = ts > p.t0 + 1e-14
        if after.any():
            s = solve_ivp(f, (p.t0, ts[-1]), y0, method="LSODA", t_eval=ts[after], rtol=1e-8, atol=1e-9)
            if not s.success:
                raise RuntimeError("standin IDA: " + s.message)
            ya[:, after] = s.y
        state["u"] = getattr(self, "_u", np.where(d, p.yd0, p.y0))
        for k, t in enumerate(ts):
            Y[k], YD[k], state["u"] = self._solve_point(t, ya[:, k], state["u"])
        return list(ts), Y, YD
