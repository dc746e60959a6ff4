"""C12 a problem assembles exactly the equations and objects of its models."""
import copy
import threading

from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import *  # noqa
from .. import dynamic_models

S = sloth()
M = mods()


@st.composite
def strategy(draw):
    s = draw(system(nonlinear=draw(st.booleans()), max_models=4, max_vars=3))
    s["again"] = draw(st.integers(0, 3))
    s["conn_first"] = draw(st.booleans())
    s["late"] = draw(st.booleans())
    s["edits"] = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), eighths()), max_size=3))
    if draw(st.booleans()):
        # variables given a value, as a user does before counting degrees of freedom
        cand = [(m, i) for m, md in enumerate(s["models"]) for i, q in enumerate(md["q"]) if q["k"] == "var"]
        for m, i in draw(st.lists(st.sampled_from(cand), min_size=1, max_size=2, unique=True)):
            s["models"][m]["q"][i]["s"] = True
    if len(s["models"]) > 1 and draw(st.integers(0, 3)) == 0:
        # an equation of one model and an equation of another whose names, with their models' names, read the same
        a, b = s["models"][0], s["models"][-1]
        b["n"] = "q_" + a["n"]
        draw(st.sampled_from(a["eqs"]))["n"] = draw(st.sampled_from(b["eqs"]))["n"] + "_q"
        s["same"] = True
    if draw(st.integers(0, 3)) == 0:
        for m in s["models"]:
            for e in m["eqs"]:
                if draw(st.booleans()):
                    e["un"] = True
                    s["unnamed"] = True
    s["x"] = draw(st.lists(eighths(-24, 24), min_size=24, max_size=24))
    return s


def denotes(s, prob, ms, x, what):
    """every equation of the problem is its model's current one and has the value it was declared to have"""
    b = prob.equation_block
    check(sorted(id(e) for e in b.equations) == sorted(id(e) for m in ms for e in m.equations.values()), "%s: the equations of the problem are not those of its models", what)
    k = 0
    for m, md in zip(ms, s["models"]):
        v = []
        for q in md["q"]:
            v.append(x[q["n"] + "_" + md["n"]] if q["k"] == "var" and not q["s"] else q["v"])
        val = {q["n"] + "_" + md["n"]: z for q, z in zip(md["q"], v) if not (q["k"] == "var" and q["s"])}
        for e in md["eqs"]:
            try:
                l, el = ev(e["l"], v)
                r, er = ev(e["r"], v)
            except OutOfDomain:
                continue
            eq = m.made[e["n"]] if e.get("un") else m.equations[e["n"] + "_" + md["n"]]
            check(m.equations.get(eq.name) is eq, "%s: equation %s is not its model's", what, eq.name)
            got = float(eq.eval({n: z for n, z in val.items() if n in eq.objects_declared or n in eq.equation_expression.symbolic_map}))
            check(abs(got - (l - r)) <= tol(el + er, abs(l) + abs(r)), "%s: equation %s has the value %r, declared is %r", what, eq.name, got, l - r)
            k += 1
    return k


def expected(s):
    eqs, var, par = [], set(), set()
    for m in s["models"]:
        for e in m["eqs"]:
            eqs.append(e["n"] + "_" + m["n"] if not e.get("un") else "")
            for i in syms(["sub", e["l"], e["r"]]):
                q = m["q"][i]
                if q["k"] == "var":
                    var.add(q["n"] + "_" + m["n"])
                elif q["k"] == "par":
                    par.add(q["n"] + "_" + m["n"])
    for c in s["conns"]:
        for mi, idx in ((c["from"], c["outs"]), (c["to"], c["ins"])):
            m = s["models"][mi]
            var |= {m["q"][i]["n"] + "_" + m["n"] for i in idx}
    return eqs, var, par


def view(prob):
    # unnamed equations have another name after every declaration
    nm = lambda e: e.name if not e.name.split("_")[0].isdigit() else "unnamed"  # noqa
    b = prob.equation_block
    return ([nm(e) for e in b.equations], list(b._var_list), list(b.parameter_dict), prob._getProblemType(),
            {g: [nm(e) for e in l] for g, l in b._equation_groups.items()}, [str(x) for x in b._equations_list])


def body(case, rec):
    prob, ms = make_problem(copy.deepcopy(case))
    other, oms = make_problem(case, "other")
    prob.resolve()
    eqs, var, par = expected(case)
    b = prob.equation_block
    allm = [e for m in ms for e in m.equations.values()]
    check(len(allm) == len(eqs) + len(case["conns"]), "the models hold %d equations, %d were declared and %d connected", len(allm), len(eqs), len(case["conns"]))
    names = [e.name for e in b.equations]
    check(all(names.count(n) == eqs.count(n) for n in eqs if n), "equations of the problem: %s, declared: %s", names, eqs)
    check(len(b.equations) == len(allm) and {id(e) for e in b.equations} == {id(e) for e in allm}, "the problem has equations %s, its models %s", names, [e.name for e in allm])
    check(set(b._var_list) == var and len(b._var_list) == len(var), "variables of the problem: %s, used: %s", b._var_list, sorted(var))
    check(set(b.parameter_dict) == par, "parameters of the problem: %s, used: %s", sorted(b.parameter_dict), sorted(par))
    check(set(b.variable_dict) == var and all(b.variable_dict[k].name == k for k in var), "variable table of the problem")
    grouped = [e for g in b._equation_groups.values() for e in g]
    check(len(grouped) == len(b.equations) and {id(e) for e in grouped} == {id(e) for e in b.equations}, "groups do not partition the equations")
    for g, l in b._equation_groups.items():
        check(all(e.type == g for e in l), "an equation of another type in group %s", g)
    want = "nonlinear" if any(e.type == "nonlinear" for e in b.equations) else "linear"
    check(prob._getProblemType() == want, "the problem is typed %s, expected %s", prob._getProblemType(), want)
    for m, md in zip(ms, case["models"]):
        t = {**{"var": m.variables}, "par": m.parameters, "con": m.constants}
        for k in t:
            check(sorted(t[k]) == sorted(q["n"] + "_" + md["n"] for q in md["q"] if q["k"] == k), "%s of model %s: %s", k, md["n"], sorted(t[k]))
            check(all(o.name == n for n, o in t[k].items()), "a %s of %s is registered under another name", k, md["n"])
    # resolving again changes nothing
    v = view(prob)
    for _ in range(case["again"]):
        prob.resolve()
        w = view(prob)
        check(w[0] == v[0] and sorted(w[1]) == sorted(v[1]) and sorted(w[2]) == sorted(v[2]) and w[3:] == v[3:], "resolving again changed the problem: %s became %s", v, w)
        rec.label("again")
    # what the models say now is what a further resolve takes
    x = {q["n"] + "_" + m["n"]: case["x"][(i * 7 + j) % 24] for j, m in enumerate(case["models"]) for i, q in enumerate(m["q"])}
    denotes(case, prob, ms, x, "after resolve")
    if case["edits"]:
        case = copy.deepcopy(case)
        for a, i, z in case["edits"]:
            md = case["models"][a % len(case["models"])]
            e = md["eqs"][i % len(md["eqs"])]
            e["l"] = ["add", e["l"], ["n", z]]
            own = ms[a % len(ms)].md
            own["eqs"][i % len(own["eqs"])]["l"] = e["l"]
        prob.resolve()
        n = denotes(case, prob, ms, x, "after a change of the models and a new resolve")
        check(sorted(view(prob)[0]) == sorted(v[0]) and sorted(view(prob)[1]) == sorted(v[1]), "after a change of the models: %s", view(prob)[:2])
        rec.label("edits" if n else "edits_unseen")
    # the other problem, built alike, is unaffected and complete
    check(other.equation_block is None, "a problem that was not resolved has equations")
    other.resolve()
    check(case["edits"] or view(other)[:5] == v[:5] or sorted(view(other)[1]) == sorted(v[1]), "an equal problem differs")
    # a model that was not added takes no part; one added later does
    if case["late"]:
        extra = M.Model("extra", "")
        z = extra.createVariable("z", mk_unit(ZERO), "")
        extra.createEquation("ez", "", z() - 2.)
        prob.resolve()
        check("z_extra" not in prob.equation_block._var_list, "a model that was not added takes part")
        prob.addModels(extra)
        prob.resolve()
        check(set(prob.equation_block._var_list) == var | {"z_extra"} and len(prob.equation_block.equations) == len(allm) + 1,
              "a model added later: variables %s", prob.equation_block._var_list)
        check(len(other.models) == len(ms), "the model was added to another problem")
        rec.label("late")
    rec.label("models=%d" % len(ms), *(["unnamed"] if case.get("unnamed") else []), *(["same_names"] if case.get("same") else []), *(["given_variable"] if any(q["s"] and q["k"] == "var" for m in case["models"] for q in m["q"]) else []), "conns=%d" % len(case["conns"]), prob._getProblemType(), *[m["mode"] for m in case["models"]])
    rec.nt(len(ms) >= 2 and len(eqs) >= 3)


@st.composite
def many_strategy(draw):
    n = draw(st.integers(1, 45))
    return {"n": n, "un": draw(st.sampled_from(["all", "half", "none"])), "where": draw(st.sampled_from(["constructor", "declared", "mixed"])),
            "models": draw(st.integers(1, 3)), "times": draw(st.integers(1, 3)), "k": draw(st.lists(eighths(), min_size=3, max_size=3)), "late": draw(st.booleans()),
            "threads": draw(st.sampled_from([None, None, "each", "model"])), "conns": draw(st.sampled_from([0, 0, 1, 3, 12]))}


def many_body(case, rec):
    """models of many equations, named or not, made in the constructor or declared"""
    n = case["n"]

    class Large(M.Model):
        def DeclareEquations(self):
            for i in range(n):
                if where(i) == "declared":
                    self.write(i)

        def write(self, i):
            nm = "" if case["un"] == "all" or case["un"] == "half" and i % 2 else "eq%d" % i
            self.createEquation(nm, "", self.xs[i]() * 2. == self.k() + float(i))

    where = lambda i: case["where"] if case["where"] != "mixed" else ("constructor" if i % 3 else "declared")  # noqa
    ms, failed = [], []

    def call(f, *args):
        """here, or in a thread of its own"""
        def target():
            try:
                f(*args)
            except BaseException as e:  # noqa: raised below
                failed.append(e)
        if case.get("threads") is None:
            return f(*args)
        t = threading.Thread(target=target)
        t.start()
        t.join()
        if failed:
            raise failed[0]

    def write_all(m):
        for i in range(n):
            if where(i) == "constructor":
                m.write(i)

    nc = case.get("conns", 0)
    for j in range(case["models"]):
        m = Large("L%d" % j, "")
        m.k = m.createParameter("k", mk_unit(ZERO), "")
        m.k.setValue(case["k"][0])
        m.xs = [m.createVariable("x%d" % i, mk_unit(ZERO), "") for i in range(n)]
        m.zs = [m.createVariable("z%d" % i, mk_unit(ZERO), "") for i in range(nc)]
        if case.get("threads") == "each":
            for i in range(n):
                if where(i) == "constructor":
                    call(m.write, i)
        else:
            call(write_all, m)
        ms.append(m)
    prob = M.Problem("large", "")
    prob.addModels(ms)
    for i in range(nc):
        for m in ms:
            # a connection that comes from no model
            call(lambda i=i, m=m: prob.createConnection("", m, m.xs[i % n]() * 2. + float(i), m.zs[i]()))
    for t in range(case["times"]):
        for m in ms:
            m.k.setValue(case["k"][t])
        prob.resolve()
        b = prob.equation_block
        check(len(b.equations) == (n + nc) * len(ms), "%d equations in the problem, %d were declared", len(b.equations), (n + nc) * len(ms))
        check(len(b._var_list) == (n + nc) * len(ms), "%d variables in the problem, %d are used", len(b._var_list), (n + nc) * len(ms))
        check(len({e.name for e in b.equations}) == len(b.equations), "two equations of one name")
        want = {}
        conns = ["z%d_%s" % (i, m.name) for i in range(nc) for m in ms]
        for m in ms:
            for i in range(n):
                k = case["k"][t if where(i) == "declared" else 0]
                want["x%d_%s" % (i, m.name)] = 2. * 0.5 - k - i
        for e in b.equations:
            zs = [v for v in e.objects_declared if v.startswith("z")]
            if zs:
                h, g = zs[0][1:].split("_")
                x = "x%d_%s" % (int(h) % n, g)
                check(sorted(e.objects_declared) == sorted([zs[0], x]) and zs[0] in conns, "the connection %s is of %s", e.name, e.objects_declared)
                conns.remove(zs[0])
                got = float(e.eval({x: 0.5, zs[0]: 3.}))
                check(abs(abs(got) - abs(3. - 1. - int(h))) < 1e-9, "the connection of %s has the value %r", zs[0], got)
                continue
            vs = [v for v in e.objects_declared if v in want]
            check(len(vs) == 1, "equation %s is about %s", e.name, vs)
            got = float(e.eval({**{v: 0.5 for v in vs}, **{q: m.k.value for m in ms for q in ["k_" + m.name] if q in e.equation_expression.symbolic_map}}))
            ok = abs(got - want.pop(vs[0])) < 1e-9 or t and where(int(vs[0][1:].split("_")[0])) == "constructor"
            check(ok, "the equation for %s has the value %r after resolve %d", vs[0], got, t)
        check(not want and not conns, "no equation for %s", (list(want) + conns)[:3])
    rec.label(case["un"], case["where"], "times=%d" % case["times"])
    rec.nt(n > 10)


SUBS = [
    Sub("assembly", strategy, body, 350, 3500,
        "random problems of 1-4 models (declaring in the constructor, in Declare functions, in subclasses) with connections and "
        "unused objects: equations, variables, parameters, groups and type; repeated resolve, equations edited between resolves, models added later; every equation evaluated against its declaration; non-trivial: two "
        "models and three equations", shards=7),
    Sub("large", many_strategy, many_body, 60, 600,
        "models of up to 45 equations, named or unnamed, made in the constructor (also by other threads) or declared, with connections from no model, resolved up to three times with parameters changed between: "
        "one equation for every one declared, of the value declared; non-trivial: more than ten equations", shards=3),
    Sub("dynamic", dynamic_models.change_strategy, dynamic_models.assembly_body, 100, 1000,
        "dynamic problems of two or three models with connections, algebraic and repeated equations: equations, variables, groups, type; resolved again, also after "
        "a model changed; non-trivial: three equations", shards=4),
]
ASSUMPTIONS = ["model names are distinct"]
