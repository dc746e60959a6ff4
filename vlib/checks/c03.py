"""C03 elementary functions need dimensionless arguments."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()


@st.composite
def case_bad(draw):
    b = Builder(draw, max_q=5)
    d = draw(st.one_of(st.sampled_from([p for p in POOL if any(p)]),
                       st.lists(st.integers(-2, 2), min_size=7, max_size=7).filter(any),
                       st.integers(0, 6).map(lambda k: [1 if i == k else 0 for i in range(7)]),
                       st.integers(0, 6).map(lambda k: [0.5 if i == k else 0 for i in range(7)]),
                       # (nearly dimensionless is not dimensionless)
                       st.integers(0, 6).map(lambda k: [1 / 512 if i == k else 0 for i in range(7)])))
    e = b.expr(list(d), draw(st.integers(0, 3)))
    if e[0] == "n":
        e = b.leaf(d)
    return {"w": b.world, "e": e, "f": draw(st.sampled_from(FNS))}


def body_bad(case, rec):
    w = case["w"]
    a = build(case["e"], mk_world(w))
    rec.label(case["f"])
    try:
        getattr(S.ops, case["f"])(a)
    except TypeError as ex:
        check(len(str(ex)) > 0, "no explanation")
    else:
        raise Violation("%s accepted %s of dimension %s" % (case["f"], show(case["e"], w), dim(case["e"], w)))
    rec.nt(nodes(case["e"]) >= 2)


@st.composite
def case_good(draw):
    b = Builder(draw, max_q=5)
    e = b.expr(list(ZERO), draw(st.integers(0, 3)))
    f = draw(st.sampled_from(FNS))
    v = b.val(e)
    if f in ("Log", "Log10", "Sqrt") and v < 0.05:
        e = ["add", ["mul", e, e], ["n", 0.5]] if e[0] != "n" else ["n", 2]
        if abs(b.val(e)) > 1e6:
            e = b.new_q(ZERO, v=2.5)
    if f == "Exp" and v > 8 or f in ("Sin", "Cos", "Tan") and abs(v) > 50:
        e = b.new_q(ZERO, v=-1.25)
    if f == "Tan" and abs(math.cos(b.val(e))) < 0.1:
        e = b.new_q(ZERO, v=0.5)
    if draw(st.integers(0, 5)) == 0:
        e = ["n", draw(POS)]
        if f == "Tan":
            e = ["n", 0.5]
    return {"w": b.world, "e": e, "f": f}


def body_good(case, rec):
    w = case["w"]
    objs = mk_world(w)
    r = getattr(S.ops, case["f"])(build(case["e"], objs))
    rec.label(case["f"], "number" if case["e"][0] == "n" else "expression")
    check(not any(unit_vec(r.unit_object)), "%s(%s) has unit %s", case["f"], show(case["e"], w), unit_vec(r.unit_object))
    v, err = ev(["fn", case["f"], case["e"]], [q["v"] for q in w])
    got = float(S.Equation("e", "", r + 0.).eval({q["n"]: q["v"] for q in w}))
    check(abs(got - v) <= tol(err, v), "%s(%s) is %r, expected %r", case["f"], show(case["e"], w), got, v)
    check(set(r.symbolic_map) == {w[i]["n"] for i in syms(case["e"])}, "objects recorded for %s(%s): %s", case["f"], show(case["e"], w), sorted(r.symbolic_map))
    rec.nt(nodes(case["e"]) >= 2 or case["e"][0] == "n")


@st.composite
def case_type(draw):
    return {"f": draw(st.sampled_from(FNS)), "x": draw(st.sampled_from(["text", None, [1.0], {"a": 1}, "quantity", "unit"]))}


def body_type(case, rec):
    x = case["x"]
    if x == "quantity":
        x = S.Variable("x", mk_unit(ZERO), "")
    elif x == "unit":
        x = mk_unit(ZERO)
    try:
        getattr(S.ops, case["f"])(x)
    except (TypeError, S.err.UnexpectedValueError):
        pass
    else:
        raise Violation("%s accepted a %s" % (case["f"], type(x).__name__))
    rec.label(case["f"])
    rec.nt()


SUBS = [
    Sub("dimensional_refused", case_bad, body_bad, 800, 8000,
        "every elementary function applied to a random dimensional expression must raise; non-trivial: composite argument", shards=2),
    Sub("dimensionless_value", case_good, body_good, 800, 8000,
        "every elementary function applied to a number or a dimensionless expression: value, unit and recorded objects; "
        "non-trivial: composite argument or plain number", shards=2),
    Sub("wrong_type_refused", case_type, body_type, 60, 200,
        "elementary functions applied to something that is neither a number nor an expression must raise"),
]
