"""C13 a connection is exactly the declared relation between exposed variables."""
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa

S = sloth()
M = mods()


@st.composite
def strategy(draw):
    names = list(draw(st.permutations(MNAMES)))
    models = []
    for m in range(draw(st.integers(2, 3))):
        q = []
        ln = list(draw(st.permutations(NAMES)))
        for i in range(draw(st.integers(2, 5))):
            q.append({"k": "var", "n": ln[i], "d": draw(st.sampled_from([ZERO, ZERO, [0, 1, -1, 0, 0, 0, 0]])), "v": draw(eighths()),
                      "exp": draw(st.sampled_from(["input", "output", "output", "input", None])), "s": False})
        models.append({"n": names[m], "q": q})
    calls = []
    for _ in range(draw(st.integers(1, 6))):
        # mostly valid calls: outputs of one model to inputs of another
        a, b = draw(st.permutations(range(len(models))))[:2]
        mode = draw(st.sampled_from(["vars", "vars", "lists", "lists", "expr", "custom", "named", "anon"]))
        wild = draw(st.integers(0, 3)) == 0
        ca = [i for i, q in enumerate(models[a]["q"]) if wild or q["exp"] == "output"]
        cb = [i for i, q in enumerate(models[b]["q"]) if wild or q["exp"] == "input"]
        if not ca or not cb:
            continue
        outs = draw(st.lists(st.sampled_from(ca), min_size=1, max_size=1 if mode in ("vars",) else 3, unique=draw(st.integers(0, 2)) > 0))
        ins = draw(st.lists(st.sampled_from(cb), min_size=1, max_size=1 if mode in ("vars", "expr", "named", "anon") else 2, unique=draw(st.integers(0, 2)) > 0))
        calls.append({"a": a, "b": b, "outs": outs, "ins": ins, "mode": mode, "k": draw(st.sampled_from([1, 2, -0.5]))})
    if calls and draw(st.integers(0, 2)) == 0:
        # several expressions into the same model
        c = dict(draw(st.sampled_from(calls)), mode=draw(st.sampled_from(["anon", "anon", "expr", "named"])))
        c["ins"] = c["ins"][:1]
        calls += [dict(c, k=k) for k in draw(st.lists(st.sampled_from([1, 2, -0.5, 3]), min_size=2, max_size=4))]
    for c in calls:
        # a variable of a model of the same name that is not part of the problem
        c["twin"] = draw(st.sampled_from([None] * 6 + ["out", "in"]))
    return {"models": models, "calls": calls}


def body(case, rec):
    ms = []
    for md in case["models"]:
        m = M.Model(md["n"], "")
        m.objs = [declare_q(m, q) for q in md["q"]]
        ms.append(m)
    twins = []
    for md in case["models"]:
        m = M.Model(md["n"], "")
        m.objs = [declare_q(m, q) for q in md["q"]]
        twins.append(m)
    vals = {o.name: q["v"] for m, md in zip(ms, case["models"]) for o, q in zip(m.objs, md["q"])}
    prob = M.Problem("p", "")
    other = M.Problem("q", "")
    prob.addModels(ms)
    expect = {i: [] for i in range(len(ms))}
    seen = {}
    ok_n = bad_n = 0
    for c in case["calls"]:
        qa, qb = case["models"][c["a"]]["q"], case["models"][c["b"]]["q"]
        ma, mb = ms[c["a"]], ms[c["b"]]
        outs, ins = [ma.objs[i] for i in c["outs"]], [mb.objs[i] for i in c["ins"]]
        dims_ = [qa[i]["d"] for i in c["outs"]] + [qb[i]["d"] for i in c["ins"]]
        mode = c["mode"]
        twin = c.get("twin") if mode in ("vars", "lists", "custom") else None
        if twin == "out":
            outs[-1] = twins[c["a"]].objs[c["outs"][-1]]
        elif twin == "in":
            ins[-1] = twins[c["b"]].objs[c["ins"][-1]]
        legal_exp = twin is None and all(qa[i]["exp"] == "output" for i in c["outs"]) and all(qb[i]["exp"] == "input" for i in c["ins"])
        coherent = all(d == dims_[0] for d in dims_)
        if mode in ("expr", "named", "anon"):
            legal = coherent
        else:
            legal = legal_exp and coherent
        want = sum(vals[i.name] for i in ins) - c["k"] * sum(vals[o.name] for o in outs) if mode in ("expr", "named", "anon", "custom") else \
            sum(vals[i.name] for i in ins) - sum(vals[o.name] for o in outs)
        before = [dict(m.equations) for m in ms]
        bconn = dict(prob.connections)
        exc = None
        try:
            if mode == "vars":
                prob.createConnection(ma, mb, outs[0], ins[0])
            elif mode == "lists":
                prob.createConnection(ma, mb, outs, ins)
            elif mode == "custom":
                e = c["k"] * sum([o() for o in outs])
                prob.createConnection(ma, mb, outs, ins, sum([i() for i in ins]) - e)
            else:
                e = outs[0]()
                for o in outs[1:]:
                    e = e + o()
                prob.createConnection(ma if mode == "expr" else "source" if mode == "named" else "", mb, c["k"] * e, ins[0]())
        except (S.err.ExposedVariableError, S.err.DimensionalCoherenceError) as ex:
            exc = ex
        what = "connection %s of %s to %s" % (mode, [o.name for o in outs], [i.name for i in ins])
        if exc is not None:
            check(not legal, "%s was refused: %s", what, exc)
            check(coherent is False or isinstance(exc, S.err.ExposedVariableError), "%s: not exposed, but %s", what, type(exc).__name__)
            len(str(exc)) > 0 or check(False, "no message")
            check([dict(m.equations) for m in ms] == before and dict(prob.connections) == bconn, "a refused %s changed a model", what)
            bad_n += 1
            rec.label("refused_" + type(exc).__name__)
            continue
        check(legal, "%s was accepted (exposed: %s, coherent: %s)", what, legal_exp, coherent)
        ok_n += 1
        rec.label(mode)
        new = [[e for n, e in m.equations.items() if n not in b or b[n] is not e] for m, b in zip(ms, before)]
        lost = [[n for n, e in b.items() if m.equations.get(n) is not e] for m, b in zip(ms, before)]
        key = (c["a"], c["b"], tuple(c["outs"]), tuple(c["ins"]))
        replaced = mode in ("vars", "lists", "custom") and key in seen
        for i in range(len(ms)):
            check(len(new[i]) == (1 if i == c["b"] else 0), "%s added %d equations to model %s", what, len(new[i]), ms[i].name)
            check(len(lost[i]) == (1 if replaced and i == c["b"] else 0), "%s lost equations %s", what, lost[i])
        eq = new[c["b"]][0]
        if mode in ("vars", "lists", "custom"):
            seen[key] = eq
        got = float(eq.eval({n: v for n, v in vals.items()}))
        check(abs(got - want) <= 1e-12 * (1 + sum(abs(vals[o.name]) for o in outs + ins) * 3), "%s has residual %r, expected %r", what, got, want)
        check(set(eq.objects_declared) == {o.name for o in outs + ins} and all(eq.objects_declared[o.name] is o for o in outs + ins),
              "%s records %s", what, sorted(eq.objects_declared))
        check(eq.type == "linear", "%s is typed %s", what, eq.type)
        if mode in ("vars", "lists", "custom"):
            check([k for k, v in prob.connections.items() if v is eq] != [] and len(prob.connections) == len(bconn) + (0 if replaced else 1), "%s is not registered in the problem", what)
            check(eq.input_var_name == ",".join(i.name for i in ins) and eq.output_var_name == ",".join(o.name for o in outs), "%s is recorded from %s to %s", what, eq.output_var_name, eq.input_var_name)
    check(len(other.connections) == 0 and len(other.models) == 0, "another problem was changed")
    total = sum(len(m.equations) for m in ms)
    prob.resolve()
    check(len(prob.equation_block.equations) == total, "the problem has %d equations, %d were created", len(prob.equation_block.equations), total)
    rec.nt(ok_n >= 2 or (ok_n and bad_n))


SUBS = [
    Sub("connections", strategy, body, 700, 7000,
        "histories of connections (single variables, lists, expressions, given relation) between random models, legal, not exposed or "
        "dimensionally incoherent; the relation, what it records, nothing else changed or lost; non-trivial: two accepted, or one "
        "accepted and one refused", shards=5),
]
ASSUMPTIONS = ["connecting the very same outputs to the very same inputs again replaces the relation"]
