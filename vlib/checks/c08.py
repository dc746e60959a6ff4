"""C08 giving a quantity a value is checked and atomic; arithmetic between quantities."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()
REFUSE = (S.err.DimensionalCoherenceError, S.err.UnexpectedValueError, TypeError)
DD = st.one_of(st.sampled_from(POOL), st.lists(st.sampled_from([0, 0, 0, 1, -1, 2, 0.5]), min_size=7, max_size=7))
VAL = st.one_of(st.integers(-10 ** 6, 10 ** 6), st.floats(-1e9, 1e9, allow_nan=False), st.sampled_from([0, 0., -0.5, 1e-12]))
KIND = st.sampled_from(["var", "par", "con"])


@st.composite
def strategy(draw):
    d = draw(DD)
    ops_ = []
    for _ in range(draw(st.integers(1, 8))):
        f = draw(st.sampled_from(["num", "num_unit", "num_badunit", "num_badunit", "qty", "badqty", "badqty", "object", "badobject", "junk", "number_times_unit"]))
        o = {"f": f, "v": draw(VAL), "k": draw(KIND), "junk": draw(st.sampled_from(["1.0", None, [1.0], {"v": 1}, (2,)]))}
        # an incoherent dimension: one exponent differs, or all do
        i = draw(st.integers(0, 6))
        delta = draw(st.sampled_from([1, -1, 2, 0.5, 1 / 512]))
        o["bad"] = [x + (delta if j == i else 0) for j, x in enumerate(d)] if draw(st.integers(0, 3)) else [
            (x + delta) for x in d]
        ops_.append(o)
    # bounds of a variable are information for solvers: a value outside of them is still the value given
    lo, up = draw(st.one_of(st.none(), st.integers(-10, 5))), draw(st.one_of(st.none(), st.integers(5, 50)))
    return {"k": draw(KIND), "d": d, "v0": draw(VAL), "ops": ops_, "lo": lo, "up": up, "share": draw(st.booleans())}


def body(case, rec):
    d = case["d"]
    cls = {"var": S.Variable, "par": S.Parameter, "con": S.Constant}
    u = mk_unit(d)
    kw = {"lower_bound": case["lo"], "upper_bound": case["up"]} if case["k"] == "var" else {}
    q = cls[case["k"]]("q", u, "", value=case["v0"], **kw)
    other = cls[case["k"]]("r", u if case["share"] else mk_unit(d), "", value=17.25)
    value, spec = case["v0"], False
    good = bad = 0
    for n, o in enumerate(case["ops"]):
        f, v = o["f"], o["v"]
        rec.label(case["k"], f)
        ok = f in ("num", "num_unit", "qty", "object", "number_times_unit")
        arg, unit = v, None
        if f == "num_unit":
            unit = u if case["share"] else mk_unit(d)
        elif f == "num_badunit":
            unit = mk_unit(o["bad"])
        elif f in ("qty", "badqty"):
            arg = S.quantity.Quantity("", mk_unit(d if ok else o["bad"]), value=v)
        elif f in ("object", "badobject"):
            arg = cls[o["k"]]("z", mk_unit(d if ok else o["bad"]), "", value=v)
        elif f == "number_times_unit":
            arg = mk_unit(d) * v
        elif f == "junk":
            arg = o["junk"]
        try:
            q.setValue(arg, unit) if unit is not None else q.setValue(arg)
        except REFUSE as ex:
            check(not ok, "a coherent value (%s) was refused: %r", f, ex)
            bad += 1
        else:
            check(ok, "an incoherent or meaningless value was accepted: %s for a quantity of dimension %s", o, d)
            value, spec = v, True
            good += 1
        check(q.value == value, "value is %r after %s, expected %r", q.value, f, value)
        check(bool(q.is_specified) == spec, "is_specified is %r after %s", q.is_specified, f)
        check(unit_vec(q.units) == [float(x) for x in d] and q.name == "q", "name or unit changed by setValue")
        check(unit_vec(u) == [float(x) for x in d], "the unit the quantity was made with changed")
        check(other.value == 17.25 and unit_vec(other.units) == [float(x) for x in d] and other.is_specified is False, "another quantity changed")
        if f in ("object", "badobject"):
            check(arg.value == v and arg.is_specified is False, "the source object changed")
        if kw:
            check(q.lower_bound == case["lo"] and q.upper_bound == case["up"], "the bounds are %r, %r", q.lower_bound, q.upper_bound)
        node = q()
        if spec:
            # note: the *current* value must be what expressions see from now on
            got = float(S.Equation("e", "", node + 0).eval({"q": 12345.0}))
            check(got == value, "an expression sees %r instead of %r", got, value)
            check("q" in node.symbolic_map, "specified quantity not recorded")
    rec.nt(good >= 1 and bad >= 1)


@st.composite
def arith_case(draw):
    d1 = draw(DD)
    same = draw(st.booleans())
    d2 = list(d1) if same else draw(DD)
    return {"k1": draw(KIND), "k2": draw(KIND), "d1": d1, "d2": d2, "v1": draw(eighths()), "v2": draw(eighths()),
            "op": draw(st.sampled_from(["add", "sub", "mul", "div", "pow"])), "p": draw(st.sampled_from([2, 3, -1, 1, 0.5]))}


def body_arith(case, rec):
    cls = {"var": S.Variable, "par": S.Parameter, "con": S.Constant}
    d1, d2, v1, v2, op = case["d1"], case["d2"], case["v1"], case["v2"], case["op"]
    a = cls[case["k1"]]("a", mk_unit(d1), "", value=v1)
    b = cls[case["k2"]]("b", mk_unit(d2), "", value=v2)
    rec.label(op, case["k1"])
    rec.nt(any(d1))
    if op == "pow":
        p = case["p"]
        if v1 < 0 and p == 0.5:
            return
        b = cls[case["k2"]]("b", mk_unit(ZERO), "", value=p)
        r, ev_, ed = a ** b, v1 ** p, vscale(d1, p)
    elif op in ("add", "sub"):
        try:
            r = a + b if op == "add" else a - b
        except S.err.DimensionalCoherenceError:
            check(d1 != d2, "sum of coherent quantities refused")
            rec.label("refused")
            return
        check(d1 == d2, "%s of quantities of dimensions %s and %s accepted", op, d1, d2)
        ev_, ed = (v1 + v2 if op == "add" else v1 - v2), d1
    elif op == "mul":
        r, ev_, ed = a * b, v1 * v2, vadd(d1, d2)
    else:
        r, ev_, ed = a / b, v1 / v2, vsub(d1, d2)
    check(abs(r.value - ev_) <= 1e-12 * (1 + abs(ev_)), "%s gives %r, expected %r", op, r.value, ev_)
    check(unit_vec(r.units) == [float(x) for x in ed], "%s has dimension %s, expected %s", op, unit_vec(r.units), ed)
    check(a.value == v1 and unit_vec(a.units) == [float(x) for x in d1] and b.name == "b", "operand changed")


SUBS = [
    Sub("setvalue_history", strategy, body, 900, 9000,
        "histories of coherent, incoherent and meaningless setValue calls on variables, parameters and constants, against a "
        "(value, specified) model; non-trivial: at least one accepted and one refused call", shards=4),
    Sub("quantity_arithmetic", arith_case, body_arith, 500, 5000,
        "arithmetic between quantity objects against plain vectors; non-trivial: dimensional operand", shards=2),
]
ASSUMPTIONS = ["passing a quantity together with a separate unit is not exercised (its meaning is not documented)"]
