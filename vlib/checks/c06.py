"""C06 equations are classified soundly: linear, nonlinear, differential."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()


def divisible(b, e):
    """the expression is no exact zero: a quotient by it is one a user can write"""
    try:
        return abs(b.val(e)) > 1e-3
    except OutOfDomain:
        return False


@st.composite
def strategy(draw):
    mode = draw(st.sampled_from(["affine", "affine", "any", "any", "diff", "diffn", "product", "affine_times_any"]))
    b = Builder(draw, max_q=5, nonlin=(mode not in ("affine",)), zeros=(mode in ("affine", "any")))
    d = draw(st.sampled_from(POOL))
    if mode in ("diff", "diffn"):
        if mode == "diffn" and draw(st.booleans()):
            d = [0, 0, 1, 0, 0, 0, 0]
        dd = b.derivative(d)
        d = dim(dd, b.world)
        k = draw(st.integers(0, 9))
        rest = b.expr(list(d), draw(st.integers(0, 2)))
        if rest[0] == "n":
            rest = b.leaf(d)
        other = b.expr(list(draw(st.sampled_from(POOL))), draw(st.integers(0, 2)))
        if other[0] == "n":
            other = b.leaf(ZERO)
        e = {0: ["sub", dd, rest], 1: ["sub", rest, dd], 2: ["mul", other, dd], 3: ["mul", dd, other],
             4: ["div" if divisible(b, other) else "mul", dd, other], 5: ["add", ["mul", ["n", 2], dd], rest],
             6: ["add", ["pow", dd, 2], ["mul", rest, rest]],
             7: (["fn", draw(st.sampled_from(["Exp", "Sin", "Abs", "Cos"])), dd] if not any(d) else ["sum", rest, dd, rest]),
             8: (["powe", b.new_q(ZERO, v=draw(POS)), dd] if not any(d) else ["max", rest, dd]),
             9: (["add", rest, ["powe", b.new_q(ZERO, v=2.5), ["mul", dd, ["n", 2]]]] if not any(d) else ["min", dd, rest])}[k]
    elif mode == "product":
        x = b.new_q(d, spec=False)
        y = b.new_q(draw(st.sampled_from(POOL)), spec=draw(st.booleans()))
        e = draw(st.sampled_from([["mul", x, y], ["mul", y, x], ["div", x, y], ["div", y, x], ["mul", x, x],
                                  ["mul", ["mul", x, ["n", 2]], ["add", y, ["n", 1]]], ["div", ["n", 3], x],
                                  ["mul", ["pow", x, 1], y], ["pow", x, 2], ["pow", x, 1], ["pow", x, 1.5], ["pow", x, 1.25], ["pow", x, 0.5], ["pow", x, -1]]))
        if draw(st.booleans()):
            z = b.new_q(dim(e, b.world), spec=draw(st.booleans()))
            e = draw(st.sampled_from([["add", e, z], ["sub", z, e], ["sum", z, e, z]]))
    elif mode == "affine_times_any":
        a = b.expr(list(d), 2)
        c = b.expr(list(draw(st.sampled_from(POOL))), 2)
        e = ["mul", a, c] if draw(st.booleans()) or not divisible(b, c) else ["div", a, c]
        if a[0] == "n" or c[0] == "n":
            e = b.leaf(d)
    else:
        e = b.expr(list(d), draw(st.integers(1, 4)))
    if e[0] == "n":
        e = b.leaf(d)
    n = len(b.world)
    return {"w": b.world, "e": e, "mode": mode, "before": draw(st.sampled_from([None, None, "linear", "nonlinear", "same", "elem"])), "pts": draw(st.lists(st.lists(eighths(), min_size=n, max_size=n), min_size=5, max_size=5)),
            "how": draw(st.sampled_from(["residual", "elem", "number"]))}


def body(case, rec):
    w, e = case["w"], case["e"]
    objs = mk_world(w)
    node = build(e, objs)
    if case["how"] == "residual":
        eq = S.Equation("e", "", node)
    elif case["how"] == "elem":
        other = S.Parameter("extra", mk_unit(dim(e, w)), "")
        eq = S.Equation("e", "", node == other())
    else:
        eq = S.Equation("e", "", node == 1.5)
    if case["before"]:
        # an equation that said something else before
        final = {"residual": lambda: node, "elem": lambda: node == other(), "number": lambda: node == 1.5}[case["how"]]()
        z = S.Variable("z", mk_unit([0] * 7), "")
        eq = S.Equation("e", "", {"linear": lambda: z() * 2. - 1., "nonlinear": lambda: z() ** 2 - z(), "same": lambda: final, "elem": lambda: z() * z() == 2.}[case["before"]]())
        eq.setResidual(final)
        rec.label("set_again")
    t = eq.type
    rec.label(case["mode"], t, case["how"])
    flags = [k for k, v in eq.equation_expression.equation_type.items() if v is True]
    check(len(flags) == 1 and flags[0] == "is_" + str(t), "%s has type %r and flags %s", show(e, w), t, flags)
    if has_diff(e):
        check(t == "differential", "%s contains a derivative and is classified %s", show(e, w), t)
        rec.nt(nodes(e) >= 3)
        return
    check(t != "differential", "%s contains no derivative and is classified differential", show(e, w))
    if plain_affine(e, w):
        check(t == "linear", "%s is linear and is classified %s", show(e, w), t)
        rec.nt(nodes(e) >= 4)
        return
    if t == "linear":
        # semantic test: the midpoint rule must hold between any two points
        free = [i for i in range(len(w)) if not w[i]["s"]]
        base = [q["v"] for q in w]

        def at(p):
            v = list(base)
            for i in free:
                v[i] = p[i]
            return ev(e, v)
        pts = [base] + case["pts"]
        tested = 0
        for i in range(len(pts)):
            for j in range(i):
                mid = [(x + y) / 2 for x, y in zip(pts[i], pts[j])]
                try:
                    (a, ea), (c, ec), (m, em) = at(pts[i]), at(pts[j]), at(mid)
                except OutOfDomain:
                    continue
                tested += 1
                check(abs(a + c - 2 * m) <= tol(ea + ec + 2 * em, abs(a) + abs(c)),
                      "%s is classified linear but is not affine: %r, %r, midpoint %r", show(e, w), a, c, m)
        rec.label("linear-nonplain")
        rec.nt(tested > 0)
    else:
        rec.nt(nodes(e) >= 3)


SUBS = [Sub("classification", strategy, body, 2500, 25000,
            "equations from an affine grammar, arbitrary expressions, products and derivatives in any position; a derivative "
            "must give 'differential', evident affine forms 'linear', and what is called linear must satisfy the midpoint rule "
            "at random points; non-trivial: composite (or a linear verdict that was tested at >= 1 pair of points)", shards=4)]
ASSUMPTIONS = ["'nonlinear' for an expression that happens to simplify to an affine one is allowed (conservative)"]
