"""C02 dimensional coherence of expressions."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from .. import gen
from ..runner import Sub, check, Violation, expect_raises

S = sloth()


def strategy_dims():
    return expr_case(max_depth=4)


def body_dims(case, rec):
    w, e = case["w"], case["e"]
    node = build(e, mk_world(w))
    rec.label(*ops(e))
    d = [float(x) for x in dim(e, w)]
    check(unit_vec(node.unit_object) == d, "%s has unit %s, dimensional analysis gives %s", show(e, w), unit_vec(node.unit_object), d)
    rec.nt(nodes(e) >= 5 and len({tuple(q["d"]) for q in w}) >= 2)


@st.composite
def bad_case(draw):
    b = Builder(draw, max_q=6)
    d1 = draw(st.sampled_from(POOL))
    d2 = draw(st.sampled_from([p for p in POOL if list(p) != list(d1)]))
    if draw(st.integers(0, 5)) == 0:
        # nearly the same dimension is another dimension
        k = draw(st.integers(0, 6))
        d2 = [x + (1 / 512 if i == k else 0) for i, x in enumerate(d1)]
    a, c = b.expr(list(d1), draw(st.integers(0, 3))), b.expr(list(d2), draw(st.integers(0, 3)))
    if a[0] == "n":
        a = b.leaf(d1)
    if c[0] == "n":
        c = b.leaf(d2)
    how = draw(st.sampled_from(["add", "sub", "radd", "eq", "min", "max", "addn", "sum", "sub_eq"]))
    scale = draw(st.integers(0, 2))
    return {"w": b.world, "a": a, "b": c, "how": how, "scale": scale}


def body_bad(case, rec):
    w = case["w"]
    objs = mk_world(w)
    a, b = build(case["a"], objs), build(case["b"], objs)
    if case["scale"] == 1:
        b = b * 2.
    if case["scale"] == 2:
        a = 3 * a
    how = case["how"]
    rec.label(how)
    O = S.ops
    f = {"add": lambda: a + b, "sub": lambda: a - b, "radd": lambda: b + a, "addn": lambda: (a + 1.) + b,
         "sum": lambda: sum([a, a, b]), "min": lambda: O.Min(a, b), "max": lambda: O.Max(a, 1., b),
         "eq": lambda: S.Equation("e", "", a == b), "sub_eq": lambda: S.Equation("e", "", b == a - 1)}[how]
    try:
        r = f()
    except (S.err.DimensionalCoherenceError, S.err.UnexpectedValueError) as ex:
        check(len(str(ex)) > 0, "no explanation")
    else:
        raise Violation("%s of %s and %s, whose dimensions are %s and %s, was accepted" % (
            how, show(case["a"], w), show(case["b"], w), dim(case["a"], w), dim(case["b"], w)))
    rec.nt(nodes(case["a"]) + nodes(case["b"]) >= 4)


@st.composite
def powq_case(draw):
    b = Builder(draw, max_q=5)
    a = b.expr(list(draw(st.sampled_from(POOL))), draw(st.integers(0, 2)))
    if a[0] == "n":
        a = b.leaf(ZERO)
    d = draw(st.sampled_from([p for p in POOL if any(p)]))
    p = b.expr(list(d), draw(st.integers(0, 2)))
    return {"w": b.world, "a": a, "p": p}


def body_powq(case, rec):
    w = case["w"]
    objs = mk_world(w)
    a, p = build(case["a"], objs), build(case["p"], objs)
    try:
        a ** p
    except S.err.DimensionalCoherenceError:
        pass
    else:
        raise Violation("%s was raised to %s, which has dimension %s" % (show(case["a"], w), show(case["p"], w), dim(case["p"], w)))
    rec.nt(nodes(case["a"]) + nodes(case["p"]) >= 3)


@st.composite
def deriv_case(draw):
    b = Builder(draw, max_q=6)
    dd = b.derivative(draw(st.sampled_from(POOL)))
    d = dim(dd, b.world)
    k = draw(st.integers(0, 3))
    rhs = b.expr(list(d), draw(st.integers(0, 3)))
    lhs = dd
    if k == 1:
        d1 = draw(st.sampled_from(POOL))
        c = b.new_q(d1, kind="par", spec=True)
        lhs = ["mul", c, dd]
        rhs = ["mul", rhs, c] if rhs[0] != "n" else c
    if k == 2:
        lhs = ["mul", dd, ["n", 2]]
    bad = draw(st.booleans())
    if bad:
        d2 = draw(st.sampled_from([p for p in POOL if any(p)]))
        rhs = ["mul", rhs, b.new_q(d2)]
    return {"w": b.world, "l": lhs, "r": rhs, "bad": bad, "elem": draw(st.booleans())}


def body_deriv(case, rec):
    w = case["w"]
    objs = mk_world(w)
    l, r = build(case["l"], objs), build(case["r"], objs)
    check(unit_vec(l.unit_object) == [float(x) for x in dim(case["l"], w)], "unit of %s is %s", show(case["l"], w), unit_vec(l.unit_object))
    f = (lambda: S.Equation("e", "", l == r)) if case["elem"] else (lambda: S.Equation("e", "", l - r))
    if case["bad"]:
        expect_raises((S.err.DimensionalCoherenceError,), f, "%s = %s with incoherent dimensions" % (show(case["l"], w), show(case["r"], w)))
    else:
        f()
    rec.label("bad" if case["bad"] else "good")
    rec.nt(nodes(case["r"]) >= 2)


SUBS = [
    Sub("dimension_of_result", strategy_dims, body_dims, 1500, 15000,
        "random well-typed expressions over quantities of random dimensions; unit of the result compared with dimensional "
        "analysis; non-trivial: at least 5 nodes and 2 distinct dimensions", shards=3),
    Sub("incoherent_refused", bad_case, body_bad, 800, 8000,
        "two expressions of different dimension joined by +, -, sum(), Min/Max or an equation must be refused; non-trivial: "
        "one of them is composite", shards=2),
    Sub("dimensional_exponent_refused", powq_case, body_powq, 300, 3000,
        "an expression raised to a dimensional expression must be refused; non-trivial: one of them is composite"),
    Sub("derivatives", deriv_case, body_deriv, 500, 5000,
        "equations containing a derivative: the derivative has dimension y/t, incoherent sides are refused, coherent ones "
        "accepted; non-trivial: composite right-hand side"),
]
ASSUMPTIONS = ["a plain number added to an expression is read in the unit of that expression (as documented by the code)"]
