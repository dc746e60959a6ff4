"""C05 an expression knows exactly which objects it uses."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()


def verify(node, e, w, objs, what):
    names = {w[i]["n"] for i in syms(e)}
    free = {w[i]["n"] for i in syms(e) if not w[i]["s"]}
    check(set(node.symbolic_map) == names, "%s %s records objects %s, it uses %s", what, show(e, w), sorted(node.symbolic_map), sorted(names))
    check(set(node.variable_map) == free, "%s %s records unspecified objects %s, it uses %s", what, show(e, w), sorted(node.variable_map), sorted(free))
    by = {q["n"]: o for q, o in zip(w, objs)}
    for m in (node.symbolic_map, node.variable_map):
        for k, o in m.items():
            check(o is by[k], "%s %s maps %s to another object", what, show(e, w), k)


def body(case, rec):
    w, e = case["w"], case["e"]
    objs = mk_world(w)
    node = build(e, objs)
    rec.label(*ops(e))
    verify(node, e, w, objs, "expression")
    eq = S.Equation("e", "", node)
    check(set(eq.objects_declared) == {w[i]["n"] for i in syms(e)}, "equation %s declares %s", show(e, w), sorted(eq.objects_declared))
    k = len(syms(e))
    rec.nt(k >= 3)


@st.composite
def case_eq(draw):
    b = Builder(draw, max_q=6)
    d = draw(st.sampled_from(POOL))
    dd = None
    if draw(st.booleans()):
        dd = b.derivative(d)
        d = dim(dd, b.world)
    l = dd or b.expr(list(d), draw(st.integers(0, 3)))
    if l[0] == "n":
        l = b.leaf(d)
    r = b.expr(list(d), draw(st.integers(0, 3)))
    if draw(st.integers(0, 4)) == 0:
        r = ["n", draw(NUM)]
    return {"w": b.world, "l": l, "r": r}


def body_eq(case, rec):
    w = case["w"]
    objs = mk_world(w)
    l, r = build(case["l"], objs), build(case["r"], objs)
    eq = S.Equation("e", "", l == r)
    whole = ["sub", case["l"], case["r"]]
    verify(eq(0), case["l"], w, objs, "left side")
    verify(eq(1), case["r"], w, objs, "right side")
    verify(eq.equation_expression, whole, w, objs, "equation")
    check(set(eq.objects_declared) == {w[i]["n"] for i in syms(whole)}, "equation %s declares %s", show(whole, w), sorted(eq.objects_declared))
    rec.label("diff" if has_diff(whole) else "algebraic", "number" if case["r"][0] == "n" else "expression")
    rec.nt(len(syms(whole)) >= 2)


@st.composite
def case_null(draw):
    """sums whose terms are multiplied by a plain number, zero included, in any position"""
    b = Builder(draw, max_q=6)
    d = draw(st.sampled_from(POOL))
    e = None
    for _ in range(draw(st.integers(1, 4))):
        t = b.expr(list(d), draw(st.integers(0, 2)))
        if t[0] == "n":
            t = b.leaf(list(d))
        for _ in range(draw(st.integers(0, 2))):
            n = ["n", draw(st.sampled_from([0, 0.0, 0, 0.0, 1, -1, 2.5]))]
            t = ["mul", t, n] if draw(st.booleans()) else ["mul", n, t]
        if draw(st.integers(0, 3)) == 0:
            t = ["add", t, ["n", draw(st.sampled_from([0, 0.0]))]]
        if draw(st.integers(0, 4)) == 0:
            t = ["pow", t, draw(st.sampled_from([1, 1.0]))]
        e = t if e is None else [draw(st.sampled_from(["add", "sub"])), e, t]
    return {"w": b.world, "e": e}


SUBS = [
    Sub("null_terms", case_null, body, 400, 4000,
        "sums whose terms are multiplied by plain numbers, zero and one included, or added to zero: the objects stay recorded; non-trivial: at least 3 distinct objects"),
    Sub("expression", lambda: expr_case(max_depth=5, max_q=7), body, 1500, 15000,
        "random expressions over specified and unspecified quantities; recorded objects compared with those used; "
        "non-trivial: at least 3 distinct objects", shards=3),
    Sub("equation", case_eq, body_eq, 700, 7000,
        "equations with two sides (derivatives, numbers): objects of each side and of the whole; non-trivial: 2 objects", shards=2),
]
