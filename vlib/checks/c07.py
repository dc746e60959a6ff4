"""C07 building expressions never changes the operands."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()
OPS = ["add", "sub", "mul", "div", "pow", "addn", "rsubn", "muln", "rdivn", "min", "max", "fn", "eq", "sum", "bad", "setvalue", "call", "neg"]


@st.composite
def strategy(draw):
    nq = draw(st.integers(2, 4))
    w = []
    for i in range(nq):
        k = draw(st.sampled_from(["var", "par", "con"]))
        w.append({"k": k, "n": k[0] + str(i), "d": list(draw(st.sampled_from([ZERO, ZERO, POOL[2]]))), "v": draw(POS) + 0.5,
                  "s": k != "var" and draw(st.booleans())})
    ops_ = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 30), st.integers(0, 30),
                                   st.sampled_from([1, 2, -1, 0.5, 3, 2.0]), st.sampled_from(FNS)), min_size=2, max_size=14))
    return {"w": w, "ops": [list(o) for o in ops_]}


def snap_node(n):
    return (str(n), repr(n), n.name, n.latex_text, tuple(sorted((k, id(v)) for k, v in n.symbolic_map.items())),
            tuple(sorted((k, id(v)) for k, v in n.variable_map.items())), tuple(sorted(n.equation_type.items())),
            tuple(unit_vec(n.unit_object)))


def snap_q(q):
    return (q.name, q.value, q.is_specified, q.latex_text, q.description, tuple(unit_vec(q.units)))


def body(case, rec):
    w = case["w"]
    objs = mk_world(w)
    nodes_ = [o() for o in objs]
    snaps = [snap_node(n) for n in nodes_]
    O = S.ops
    done = 0
    for op, i, j, x, f in case["ops"]:
        a, b = nodes_[i % len(nodes_)], nodes_[j % len(nodes_)]
        qs = [snap_q(q) for q in objs]
        new = None
        allowed = None
        try:
            if op == "add":
                new = a + b
            elif op == "sub":
                new = a - b
            elif op == "mul":
                new = a * b
            elif op == "div":
                new = a / b
            elif op == "pow":
                new = a ** x
            elif op == "addn":
                new = x + a
            elif op == "rsubn":
                new = x - a
            elif op == "muln":
                new = x * a
            elif op == "rdivn":
                new = x / a
            elif op == "neg":
                new = a * -1
            elif op == "min":
                new = O.Min(a, b)
            elif op == "max":
                new = O.Max(a, b, x)
            elif op == "fn":
                new = getattr(O, f)(a)
            elif op == "eq":
                eq = S.Equation("e", "", a == b)
                eq.eval({q.name: q.value for q in objs})
                eq._convertToResidualForm()
            elif op == "sum":
                new = sum([a, b, a])
            elif op == "bad":
                new = a + b ** 2 * b
            elif op == "setvalue":
                # specifying a quantity does not reach into expressions built before
                q = objs[i % len(objs)]
                q.setValue(abs(float(x)) + 1.5)
                allowed = i % len(objs)
            elif op == "call":
                new = objs[i % len(objs)]()
        except (S.err.DimensionalCoherenceError, S.err.UnexpectedValueError, TypeError, ArithmeticError):
            rec.label("refused")
        else:
            done += 1
            rec.label(op)
        for k, (n, s) in enumerate(zip(nodes_, snaps)):
            check(snap_node(n) == s, "operand %d changed during %s: %s became %s", k, op, s, snap_node(n))
        for k, (q, s) in enumerate(zip(objs, qs)):
            if k != allowed:
                check(snap_q(q) == s, "quantity %s changed during %s", q.name, op)
        if new is not None and len(str(new)) < 400 and len(nodes_) < 24:
            s = str(new)
            if not any(bad in s for bad in ("nan", "zoo", "oo", "I", "j", "inf")):
                nodes_.append(new)
                snaps.append(snap_node(new))
    rec.nt(done >= 4)


SUBS = [Sub("history", strategy, body, 700, 7000,
            "a history of operations over a growing pool of shared expressions; after every operation all earlier expressions "
            "and all quantities must look exactly as before (text, objects, type, unit); non-trivial: at least 4 operations "
            "succeeded", shards=4)]
