"""C04 an expression means what its operators say: value fidelity."""
from hypothesis import strategies as st
import numpy as np
import sympy as sp

from ..gen import *  # noqa
from ..systems import mods, declare_q
from ..runner import Sub, check, Violation

S = sloth()


@st.composite
def strategy(draw, depth=5):
    c = draw(expr_case(max_depth=depth))
    # further points, to tell apart expressions that agree at one point
    c["pts"] = draw(st.lists(st.lists(eighths(), min_size=len(c["w"]), max_size=len(c["w"])), min_size=1, max_size=3))
    return c


def points(case):
    w = case["w"]
    yield [q["v"] for q in w]
    for p in case["pts"]:
        v = [q["v"] if q["s"] else x for q, x in zip(w, p)]
        yield v


def close(got, v, err, what, *a):
    try:
        g = complex(got)
    except TypeError:
        raise Violation((what % a) + " is %r, not a number" % (got,))
    check(abs(g.imag) <= tol(err, v) and abs(g.real - v) <= tol(err, v), what + " is %r, expected %r", *(a + (got, v)))


def body(case, rec):
    w, e = case["w"], case["e"]
    objs = mk_world(w)
    node = build(e, objs)
    rec.label(*ops(e))
    unspec = [q["n"] for q in w if not q["s"]]
    eq = S.Equation("e", "", node)
    n = 0
    fns = {m: eq._convertToFunction({k: None for k in unspec}, None, m) for m in ("numpy", "mpmath", "math")}
    for v in points(case):
        try:
            ref, err = ev(e, v)
        except OutOfDomain:
            continue
        if err > 1e-7 * (1 + abs(ref)):
            continue
        n += 1
        m = {q["n"]: x for q, x in zip(w, v) if not q["s"]}
        close(eq.eval(m), ref, err, "eval of %s at %s", show(e, w), m)
        for mech, f in fns.items():
            with np.errstate(all="ignore"):
                close(f(*[m[k] for k in unspec]), ref, err, "%s-compiled %s at %s", mech, show(e, w), m)
        # the displayed form (all quantities by name) must denote the same value
        disp = sp.sympify(node.repr_symbolic)
        full = {sp.Symbol(q["n"]): sp.Float(x) for q, x in zip(w, v)}
        close(disp.xreplace(full).evalf(), ref, err, "displayed form %r of %s at %s", str(disp), show(e, w), m)
    rec.nt(n >= 1 and nodes(e) >= 5 and len(ops(e)) >= 3)


@st.composite
def strategy_setvalue(draw):
    """expressions built after quantities changed state: the value current at construction counts"""
    c = draw(expr_case(max_depth=3, kinds=("par", "con")))
    c["again"] = draw(st.lists(eighths(), min_size=len(c["w"]), max_size=len(c["w"])))
    return c


def body_setvalue(case, rec):
    w, e = [dict(q) for q in case["w"]], case["e"]
    objs = mk_world(w)
    change = []
    for q, o, x in zip(w, objs, case["again"]):
        if q["s"] and q["v"] != x and not ops(e) & {"powq", "powe"}:
            change.append((o, x))
            q["v"] = x
    try:
        ref, err = ev(e, [q["v"] for q in w])
    except OutOfDomain:
        return
    if err > 1e-7 * (1 + abs(ref)):
        return
    for o, x in change:
        o.setValue(x)
    node = build(e, objs)
    got = S.Equation("e", "", node + 0).eval({q["n"]: q["v"] for q in w if not q["s"]})
    close(got, ref, err, "value of %s after changing its parameters", show(e, w))
    for o in objs:
        rec.label(type(o).__name__)
    rec.nt(any(q["s"] for q in w) and nodes(e) >= 3)


@st.composite
def strategy_model(draw):
    """expressions of a model's quantities, with many minima and maxima"""
    b = Builder(draw, max_q=5, nonlin=draw(st.booleans()))
    d = draw(st.sampled_from(POOL))

    count = [0, 0]

    def nest(k, op):
        if k == 0 or not draw(st.integers(0, 5)):
            count[0] += 1
            e = draw(st.integers(0, 4))
            if e == 4 and not count[1]:
                count[1] = 1
                return ["n", draw(st.sampled_from([0, 0.]))]
            if e == 0:
                # (distinct numbers: operands that tie are outside of the oracle's domain)
                return ["n", draw(eighths(-8, 8)) + count[0] / 1024.]
            return ["mul", ["n", draw(st.sampled_from([2, 0.375]))], b.leaf(list(d))] if e == 1 else b.leaf(list(d))
        # alternating: nested minima alone would be the same as one
        x = [nest(k - 1, "min" if op == "max" else "max") for _ in range(draw(st.integers(2, 3)))]
        if x[0][0] == "n":
            x[0] = b.leaf(list(d))
        return [op] + x
    e = nest(draw(st.integers(2, 4)), draw(st.sampled_from(["min", "max"]))) if draw(st.integers(0, 3)) else b.expr(list(d), 3)
    e = b.leaf(list(d)) if e[0] == "n" else e
    n = len(b.world)
    for i, q in enumerate(b.world):
        if q["d"] != ZERO or not ops(e) & {"powe", "powq"}:
            q["v"] += (i + 1) / 256.
    pts = draw(st.lists(st.lists(eighths(-8, 8), min_size=n, max_size=n), min_size=2, max_size=6))
    return {"w": b.world, "e": e, "pts": [[x + (i + 1) / 256. for i, x in enumerate(p)] for p in pts],
            "name": draw(st.sampled_from(["M", "tank 2", "x"])), "two": draw(st.booleans())}


def body_model(case, rec):
    w, e = case["w"], case["e"]
    M = mods()
    m = M.Model(case["name"], "")
    objs = [declare_q(m, dict(q, exp=None)) for q in w]
    node = build(e, objs)
    if case["two"]:
        y = m.createVariable("zz", mk_unit(dim(e, w)), "", value=0.)
        m.createEquation("e", "", node == y())
    else:
        m.createEquation("e", "", node)
    rec.label(*ops(e))

    def look(what):
        eq = m.equations["e_" + case["name"]] if "e_" + case["name"] in m.equations else list(m.equations.values())[0]
        n = 0
        for v in points(case):
            try:
                ref, err = ev(e, v)
            except OutOfDomain:
                continue
            if err > 1e-7 * (1 + abs(ref)):
                continue
            n += 1
            x = {o.name: a for o, a, q in zip(objs, v, w) if not q["s"]}
            if case["two"]:
                x[y.name] = 0.
            close(eq.eval(x), ref, err, "%s, residual of %s at %s", what, show(e, w), x)
            names = list(x)
            with np.errstate(all="ignore"):
                close(eq._convertToFunction({k: None for k in names}, None, "math")(*[x[k] for k in names]), ref, err, "%s, compiled %s at %s", what, show(e, w), x)
            if case["two"]:
                close(eq.eval(x, "lhs"), ref, err, "%s, left side %s at %s", what, show(e, w), x)
        return n
    look("in a model")
    p = M.Problem("p", "")
    p.addModels(m)
    p.resolve()
    n = look("in a resolved problem")
    rec.nt(n >= 1 and bool(ops(e) & {"min", "max"}) and nodes(e) >= 5)


SUBS = [
    Sub("in_a_model", strategy_model, body_model, 400, 4000,
        "expressions with nested minima and maxima in the equation of a model, before and after the problem is resolved (quantities are renamed); "
        "non-trivial: minima or maxima and 5 nodes", shards=3),
    Sub("value", strategy, body, 900, 9000,
        "random expressions (operators with expressions and numbers on either side, functions, Min/Max, powers) evaluated "
        "interpreted, compiled (numpy, mpmath, math) and in displayed form at up to 4 points against a reference evaluator; "
        "non-trivial: at least 5 nodes and 3 kinds of operation", shards=5),
    Sub("current_value", strategy_setvalue, body_setvalue, 500, 5000,
        "expressions over parameters and constants whose values changed before use; non-trivial: a specified quantity and 3 nodes"),
]
ASSUMPTIONS = ["values are multiples of 1/8 kept away from singularities; comparison uses a propagated rounding bound"]
