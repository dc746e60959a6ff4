"""C01 unit algebra: dimensions behave as exponent vectors."""
from hypothesis import strategies as st

from ..gen import DIMS, ZERO, POOL, mk_unit, unit_vec, sloth, vadd, vsub, vscale
from ..runner import Sub, check, Violation

S = sloth()
TEMPLATES = {"dimless": ZERO, "m": [1, 0, 0, 0, 0, 0, 0], "kg": [0, 1, 0, 0, 0, 0, 0], "s": [0, 0, 1, 0, 0, 0, 0],
             "A": [0, 0, 0, 1, 0, 0, 0], "K": [0, 0, 0, 0, 1, 0, 0], "mol": [0, 0, 0, 0, 0, 1, 0],
             "cd": [0, 0, 0, 0, 0, 0, 1], "_s": [0, 0, -1, 0, 0, 0, 0], "_m2": [-2, 0, 0, 0, 0, 0, 0],
             "_m3": [-3, 0, 0, 0, 0, 0, 0], "m_s": [1, 0, -1, 0, 0, 0, 0], "m_s2": [1, 0, -2, 0, 0, 0, 0],
             "kg_s": [0, 1, -1, 0, 0, 0, 0], "mol_s": [0, 0, -1, 0, 0, 1, 0], "Force": [1, 1, -2, 0, 0, 0, 0],
             "Pa": [-1, 1, -2, 0, 0, 0, 0], "atm": [-1, 1, -2, 0, 0, 0, 0], "J": [2, 1, -2, 0, 0, 0, 0],
             "UniversalIdealGasConstant": [2, 1, -2, 0, -1, -1, 0]}

EXP = st.one_of(st.integers(-3, 3), st.sampled_from([0.5, -0.5, 1.5, 0.25, 2.0, -1.0]))
VEC = st.one_of(st.sampled_from(POOL), st.lists(EXP, min_size=7, max_size=7))


def op_strategy():
    i = st.integers(0, 30)
    return st.one_of(
        st.tuples(st.just("new"), VEC, st.booleans()),
        st.tuples(st.just("tmpl"), st.sampled_from(sorted(TEMPLATES))),
        st.tuples(st.just("mul"), i, i), st.tuples(st.just("div"), i, i), st.tuples(st.just("mul"), i, i),
        st.tuples(st.just("pow"), i, st.one_of(st.integers(-3, 3), st.sampled_from([0.5, 2.0, -0.5, 1.5]))),
        st.tuples(st.just("powu"), i, i),
        st.tuples(st.just("add"), i, i), st.tuples(st.just("sub"), i, i),
        st.tuples(st.just("near"), i, st.integers(0, 6), st.sampled_from([2.0**-10, -2.0**-10, 2.0**-12, 2.0**-14])),
        st.tuples(st.just("wrap"), i),
        st.tuples(st.just("timesnum"), i, st.integers(-40, 40).map(lambda k: k / 8)),
        st.tuples(st.just("overnum"), i, st.integers(1, 40).map(lambda k: k / 8)),
    )


def strategy():
    return st.lists(op_strategy(), min_size=2, max_size=18).map(lambda l: [list(x) for x in l])


def body(case, rec):
    pool, model = [mk_unit(ZERO), S.template_units.m], [list(ZERO), TEMPLATES["m"]]
    incoh = 0

    def pick(k):
        return k % len(pool)

    def push(u, d):
        pool.append(u)
        model.append([float(x) for x in d])

    for op in case:
        o = op[0]
        rec.label(o)
        if o == "new":
            full = {k: x for k, x in zip(DIMS, op[1]) if op[2] or x != 0}
            push(S.Unit("u", dict(full)), op[1])
        elif o == "near":
            # an exponent that differs a little
            d = list(model[pick(op[1])])
            d[op[2]] += op[3]
            push(S.Unit("u", dict(zip(DIMS, d))), d)
        elif o == "tmpl":
            push(getattr(S.template_units, op[1]), TEMPLATES[op[1]])
        elif o in ("mul", "div"):
            a, b = pick(op[1]), pick(op[2])
            u = pool[a] * pool[b] if o == "mul" else pool[a] / pool[b]
            push(u, (vadd if o == "mul" else vsub)(model[a], model[b]))
        elif o == "pow":
            a = pick(op[1])
            if max(abs(x * op[2]) for x in model[a]) > 64 or any(x * op[2] * 64 != int(x * op[2] * 64) for x in model[a]):
                continue
            push(pool[a] ** op[2], vscale(model[a], op[2]))
        elif o == "powu":
            a, b = pick(op[1]), pick(op[2])
            if any(model[b]):
                try:
                    pool[a] ** pool[b]
                except Exception:  # noqa
                    incoh += 1
                else:
                    raise Violation("a unit raised to a dimensional unit %s was accepted" % (model[b],))
            continue
        elif o in ("add", "sub"):
            a, b = pick(op[1]), pick(op[2])
            same = all(x == y for x, y in zip(model[a], model[b]))
            try:
                u = pool[a] + pool[b] if o == "add" else pool[a] - pool[b]
            except S.err.DimensionalCoherenceError as e:
                str(e)
                check(not same, "%s of coherent units %s was refused", o, model[a])
                incoh += 1
            else:
                check(same, "%s of incoherent units %s and %s was accepted", o, model[a], model[b])
                push(u, model[a])
        elif o == "wrap":
            a = pick(op[1])
            push(S.Unit("w", pool[a], "derived"), model[a])
        elif o in ("timesnum", "overnum"):
            a = pick(op[1])
            q = pool[a] * op[2] if o == "timesnum" else pool[a] / op[2]
            check(isinstance(q, S.quantity.Quantity), "unit with a number did not give a quantity")
            check(abs(q.value - (op[2] if o == "timesnum" else 1 / op[2])) < 1e-12, "unit with number %s has value %s", op[2], q.value)
            check(unit_vec(q.units) == [float(x) for x in model[a]], "unit with number changed the dimension")
            continue
        # every unit still has the dimension the algebra gives it
        for k, (u, d) in enumerate(zip(pool, model)):
            check(unit_vec(u) == [float(x) for x in d], "unit %d has dimension %s, the algebra gives %s (after %s)", k, unit_vec(u), d, op)
    n = len(pool)
    for a in range(min(n, 10)):
        check(pool[-a - 1]._is_dimensionless() == (not any(model[-a - 1])), "dimensionless test wrong for %s", model[-a - 1])
        for b in range(min(n, 10)):
            same = all(x == y for x, y in zip(model[a], model[-b - 1]))
            check(bool(pool[a]._check_dimensional_coherence(pool[-b - 1])) == same, "coherence of %s and %s", model[a], model[-b - 1])
        txt = str(pool[-a - 1])
        got = {}
        for t in txt.split():
            k, x = t.split("^")
            got[k] = float(x)
        check(got == {k: x for k, x in zip(DIMS, [float(z) for z in model[-a - 1]]) if x != 0}, "text form %r of %s", txt, model[-a - 1])
    for t, d in TEMPLATES.items():
        check(unit_vec(getattr(S.template_units, t)) == [float(x) for x in d], "library unit %s has dimension %s", t, unit_vec(getattr(S.template_units, t)))
    if incoh:
        rec.label("refused")
    rec.nt(len({tuple(x) for x in model}) >= 4)


@st.composite
def power_case(draw):
    """powers that are no binary fractions, and their undoing"""
    e = st.one_of(st.sampled_from([1 / 3, 2 / 3, 1 / 7, 0.1, 0.3, 1.2, 5 / 6, 2.75, 1e-3]), st.integers(2, 40).map(lambda k: 1 / k), st.floats(0.01, 3.))
    return {"a": draw(VEC), "b": draw(VEC), "p": [draw(e) * draw(st.sampled_from([1, 1, -1])) for _ in range(draw(st.integers(1, 3)))]}


def power_body(case, rec):
    a, b = [S.Unit("u", dict(zip(DIMS, v))) for v in (case["a"], case["b"])]

    def has(u, d, what):
        g = unit_vec(u)
        check(all(abs(x - y) <= 1e-12 * (1 + abs(y)) for x, y in zip(g, d)), "%s has dimension %s, it should be %s", what, g, d)
    u, total = a, 1.
    for p in case["p"]:
        u, total = u ** p, total * p
        has(u, vscale(case["a"], total), "%s to the powers %s" % (case["a"], case["p"]))
        check(u._check_dimensional_coherence(u ** 1) and (u / u)._is_dimensionless() and not unit_vec(u * u ** -1) != ZERO,
              "a unit of dimension %s over itself is %s", unit_vec(u), unit_vec(u / u))
    for p in reversed(case["p"]):
        u = u ** (1 / p)
    has(u, case["a"], "%s to the powers %s and back" % (case["a"], case["p"]))
    p = case["p"][0]
    check((a ** p)._check_dimensional_coherence(a ** p), "the same power twice gives incoherent units")
    check((a ** p * b)._check_dimensional_coherence(b * a ** p), "a product depends on the order: %s %s", case["a"], p)
    has((a * b) ** p, [x * p for x in vadd(case["a"], case["b"])], "the power %s of a product" % p)
    has(a ** p * b ** p, [x * p for x in vadd(case["a"], case["b"])], "the product of powers %s" % p)
    has(a ** p / b ** p, [x * p for x in vsub(case["a"], case["b"])], "the quotient of powers %s" % p)
    rec.nt(any(case["a"]) and any(abs(x * 64 - round(x * 64)) > 1e-9 for x in vscale(case["a"], p)))


SUBS = [Sub("powers", power_case, power_body, 400, 4000,
            "powers that are no binary fractions, in chains, undone again, of products and quotients, against real exponents (1e-12); "
            "non-trivial: an exponent that is no binary fraction"),
        Sub("history", strategy, body, 1500, 12000,
            "a history of unit constructions, products, quotients, powers, sums over a growing pool, compared after every "
            "step with exponent vectors; non-trivial: at least 4 distinct dimensions arose", shards=3)]
ASSUMPTIONS = ["in the histories exponents are dyadic, so that float addition of exponents is exact; other powers are compared with a tolerance of 1e-12"]
