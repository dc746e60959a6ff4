"""C09 every form of an equation denotes the same relation."""
from hypothesis import strategies as st
import numpy as np

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()


@st.composite
def strategy(draw, depth=4):
    b = Builder(draw, max_q=6)
    d = draw(st.sampled_from(POOL))
    lhs = b.expr(list(d), draw(st.integers(0, depth)))
    if lhs[0] == "n":
        lhs = b.leaf(list(d))
    form = draw(st.sampled_from(["two", "two", "number", "residual"]))
    rhs = b.expr(list(d), draw(st.integers(0, depth))) if form == "two" else ["n", draw(st.one_of(NUM, st.sampled_from([0, 0., 2.501e-9, -3.7e-11, 1234567.125, 1.0000000123])))]
    if form == "two" and rhs[0] == "n":
        rhs = b.leaf(list(d))
    if form == "two" and rhs == lhs:
        rhs = b.new_q(list(d))
    return {"w": b.world, "l": lhs, "r": rhs, "form": form, "late": draw(st.booleans()),
            "pts": draw(st.lists(st.lists(eighths(), min_size=len(b.world), max_size=len(b.world)), max_size=2))}


def near(got, v, err, what, *a):
    try:
        g = complex(got)
    except TypeError:
        raise Violation((what % a) + " is %r, not a number" % (got,))
    check(abs(g.imag) <= tol(err, v) and abs(g.real - v) <= tol(err, v), what + " is %r, expected %r", *(a + (got, v)))


def body(case, rec):
    w, l, r, form = case["w"], case["l"], case["r"], case["form"]
    objs = mk_world(w)
    L = build(l, objs)
    text = show(l, w) + (" == " + show(r, w) if form != "residual" else "")
    if form == "residual":
        expr, full = L, l
    else:
        full = ["sub", l, r]
        expr = L == (build(r, objs) if form == "two" else r[1])
    if case["late"]:
        eq = S.Equation("e", "")
        eq.setResidual(expr)
    else:
        eq = S.Equation("e", "", expr)
    rec.label(form, "late" if case["late"] else "direct", *ops(full))
    names = {w[i]["n"] for i in syms(full)}
    check(set(eq.objects_declared) == names, "objects declared by %s: %s, expected %s", text, sorted(eq.objects_declared), sorted(names))
    for nme, o in eq.objects_declared.items():
        check(any(o is x for x in objs) and o.name == nme, "the object recorded as %s is not the one used", nme)
    unspec = [q["n"] for q in w if not q["s"]]
    sides = [(None, full)] + ([("lhs", l), ("rhs", r)] if form != "residual" else [])
    n = 0
    pts = [[q["v"] for q in w]] + [[q["v"] if q["s"] else x for q, x in zip(w, p)] for p in case["pts"]]
    fns = {s: eq._convertToFunction({k: None for k in unspec}, s, "numpy") for s, _ in sides}
    # compiled without naming arguments: the objects of the equation, in its order
    order = list(eq.equation_expression.symbolic_map)
    own = {s: eq._convertToFunction(side=s, compilation_mechanism="numpy") for s, _ in sides}
    for k, v in enumerate(pts):
        for s, a in sides:
            try:
                ref, err = ev(a, v)
            except OutOfDomain:
                continue
            if err > 1e-7 * (1 + abs(ref)):
                continue
            n += 1
            m = {q["n"]: x for q, x in zip(w, v) if not q["s"]}
            near(eq.eval(m, s), ref, err, "%s of [%s]", s or "residual", text)
            with np.errstate(all="ignore"):
                near(fns[s](*[m[x] for x in unspec]), ref, err, "compiled %s of [%s]", s or "residual", text)
                near(own[s](*[{q["n"]: x for q, x in zip(w, v)}[x] for x in order]), ref, err, "%s of [%s], compiled over the equation's objects", s or "residual", text)
            if k == 0:
                near(eq.eval(side=s), ref, err, "%s of [%s] at the current values", s or "residual", text)
                if s is None:
                    near(eq.getResidual(), ref, err, "getResidual of [%s]", text)
    # changing the value of an unspecified quantity is seen by the residual
    used = [i for i in sorted(syms(full)) if not w[i]["s"]]
    if used and case["pts"]:
        v = [q["v"] for q in w]
        v[used[0]] = case["pts"][0][used[0]]
        try:
            ref, err = ev(full, v)
        except OutOfDomain:
            ref = None
        if ref is not None and err <= 1e-7 * (1 + abs(ref)):
            objs[used[0]].value = v[used[0]]
            near(eq.getResidual(), ref, err, "getResidual of [%s] after a change of value", text)
    rec.nt(n >= 2 and nodes(full) >= 5)


@st.composite
def strategy_diff(draw):
    """two-sided equations with a derivative: forms, type, and conversion to residual form"""
    b = Builder(draw, max_q=6)
    d = draw(st.sampled_from(POOL))
    df = b.derivative(vadd(list(d), [0, 0, 1, 0, 0, 0, 0]))
    lhs = df
    k = draw(st.integers(0, 3))
    if k == 1:
        lhs = ["add", df, b.expr(list(d), 1)]
    elif k == 2:
        lhs = ["mul", ["n", draw(POS)], df]
    if draw(st.integers(0, 3)) == 0:
        rhs = ["n", draw(st.one_of(NUM, st.sampled_from([2.501e-9, -3.7e-13, 7654321.125])))]
    else:
        rhs = b.expr(list(d), draw(st.integers(1, 3)))
    if draw(st.booleans()) and rhs[0] != "n":
        lhs, rhs = rhs, lhs
    return {"w": b.world, "l": lhs, "r": rhs, "x": draw(eighths())}


def rep(ast, i, j):
    if ast[0] == "diff":
        return ["q", i]
    return [rep(x, i, j) if isinstance(x, list) else x for x in ast]


def body_diff(case, rec):
    import sympy as sp
    w, l, r = case["w"], case["l"], case["r"]
    objs = mk_world(w)
    eq = S.Equation("e", "", build(l, objs) == (r[1] if r[0] == "n" else build(r, objs)))
    check(eq.type == "differential", "the equation %s == %s is typed %s", show(l, w), show(r, w), eq.type)
    full = ["sub", l, r]
    eq._convertToResidualForm()
    check(eq.equation_form == "residual", "conversion to residual form left %s", eq.equation_form)
    check(eq() is eq.equation_expression, "calling a residual-form equation does not give the residual")
    # value of the residual with the derivative replaced by a number
    w2 = list(w) + [{"v": case["x"]}]
    try:
        ref, err = ev(rep(full, len(w), None), [q["v"] for q in w2])
    except OutOfDomain:
        return
    so = eq.equation_expression.symbolic_object
    ders = list(sp.sympify(so).atoms(sp.Derivative))
    check(len(ders) == 1, "derivatives in the residual: %s", ders)
    vals = {sp.Symbol(q["n"]): q["v"] for q in w if not q["s"]}
    got = so.xreplace({ders[0]: sp.Symbol("DD")}).subs(vals).subs({sp.Symbol("DD"): case["x"]}).evalf()
    near(got, ref, err + 1e-13, "residual of [%s == %s]", show(l, w), show(r, w))
    rec.label(*ops(full))
    rec.nt(nodes(full) >= 4)


@st.composite
def strategy_again(draw):
    """one equation that is given several relations in turn, some of them incoherent"""
    b = Builder(draw, max_q=5)
    rel = []
    for _ in range(draw(st.integers(2, 4))):
        d = draw(st.sampled_from(POOL))
        l = b.expr(list(d), draw(st.integers(0, 2)))
        l = b.leaf(list(d)) if l[0] == "n" else l
        form = draw(st.sampled_from(["two", "number", "residual", "residual", "bad"]))
        r = ["n", draw(NUM)]
        if form in ("two", "bad"):
            r = b.expr(vadd(list(d), [1, 0, 0, 0, 0, 0, 0]) if form == "bad" else list(d), draw(st.integers(0, 2)))
            r = b.leaf(vadd(list(d), [1, 0, 0, 0, 0, 0, 0]) if form == "bad" else list(d)) if r[0] == "n" or r == l else r
        rel.append({"l": l, "r": r, "f": form})
    if rel[0]["f"] == "bad":
        rel[0].update(f="number", r=["n", 1.5])
    return {"w": b.world, "rel": rel, "look": draw(st.booleans())}


def body_again(case, rec):
    w = case["w"]
    objs = mk_world(w)
    eq = S.Equation("e", "", owner_model_name="M")
    cur = None
    given = refused = 0
    for k, x in enumerate(case["rel"]):
        L = build(x["l"], objs)
        expr = L if x["f"] == "residual" else L == (x["r"][1] if x["f"] == "number" else build(x["r"], objs))
        try:
            eq.setResidual(expr)
        except S.err.DimensionalCoherenceError:
            check(x["f"] == "bad", "a coherent relation was refused")
            refused += 1
        else:
            check(x["f"] != "bad", "an incoherent relation was accepted")
            cur = x
            given += 1
        l, r, form = cur["l"], cur["r"], cur["f"]
        full = l if form == "residual" else ["sub", l, r]
        text = show(l, w) + (" == " + show(r, w) if form != "residual" else "")
        names = {w[i]["n"] for i in syms(full)}
        check(set(eq.objects_declared) == names, "given %s last, the equation records %s", text, sorted(eq.objects_declared))
        check(eq.equation_form == ("residual" if form == "residual" else "elementary"), "given %s last, the equation is in %s form", text, eq.equation_form)
        fresh = S.Equation("f", "", build(l, objs) if form == "residual" else build(l, objs) == (r[1] if form == "number" else build(r, objs)))
        check(eq.type == fresh.type, "given %s last, the equation is %s, a fresh one %s", text, eq.type, fresh.type)
        v = [q["v"] for q in w]
        for s_, a in [(None, full)] + ([("lhs", l), ("rhs", r)] if form != "residual" else []):
            try:
                ref, err = ev(a, v)
            except OutOfDomain:
                continue
            if err > 1e-7 * (1 + abs(ref)):
                continue
            near(eq.eval(side=s_), ref, err, "%s of [%s], given last", s_ or "residual", text)
            if s_ is not None:
                node = eq(0 if s_ == "lhs" else 1)
                near(S.Equation("g", "", node + 0.).eval({q["n"]: q["v"] for q in w if not q["s"]}), ref, err, "side %s of [%s], given last", s_, text)
            elif case["look"]:
                near(eq.getResidual(), ref, err, "getResidual of [%s], given last", text)
        if form == "residual":
            for s_ in ("lhs", "rhs"):
                try:
                    eq.eval(side=s_)
                except S.err.AbsentRequiredObjectError:
                    pass
                else:
                    raise Violation("[%s], given last, has a %s" % (text, s_))
        rec.label(x["f"])
    rec.nt(given >= 2 or refused >= 1)


SUBS = [
    Sub("forms", strategy, body, 700, 7000,
        "equations given as residual, two-sided or with a number on the right, directly or through setResidual: residual, both "
        "sides, interpreted and compiled, with explicit and current values, against a reference evaluator; non-trivial: two "
        "evaluations and 5 nodes", shards=5),
    Sub("given_again", strategy_again, body_again, 300, 3000,
        "an equation that is given several relations in turn, some of them refused: it always is the relation accepted last, as a fresh equation; "
        "non-trivial: two relations accepted, or one refused", shards=3),
    Sub("differential_forms", strategy_diff, body_diff, 400, 4000,
        "differential equations: type and residual form; non-trivial: 4 nodes", shards=2),
]
ASSUMPTIONS = ["comparison uses a propagated rounding bound"]
