"""C11 incorporating one model into another copies it faithfully under the new model's names."""
import importlib

from hypothesis import strategies as st
import numpy as np

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()
Model = importlib.import_module("src.sloth.model").Model
Problem = importlib.import_module("src.sloth.problem").Problem
LOCAL = ["a", "b", "T", "x1", "flow", "k_2", "M", "M0", "y", "A_B", "S0", "a_M0"]


@st.composite
def model_part(draw, tag, max_eq=3):
    """a world whose quantities carry local names, and equations over it"""
    b = Builder(draw, max_q=4)
    eqs = []
    for i in range(draw(st.integers(1, max_eq))):
        d = draw(st.sampled_from(POOL))
        l = b.expr(list(d), draw(st.integers(0, 3)))
        if l[0] == "n":
            l = b.leaf(list(d))
        f = draw(st.sampled_from(["residual", "two", "number"]))
        r = ["n", draw(NUM)] if f != "two" else b.expr(list(d), draw(st.integers(0, 2)))
        if r[0] == "n" and f == "two":
            f = "number"
        if r == l:
            r = b.new_q(list(d))
        eqs.append({"n": "eq%s%d" % (tag, i), "f": f, "l": l, "r": r})
    for q in b.world:
        q["n"] = q["n"] + tag
        q["exp"] = draw(st.sampled_from([None, None, "input", "output"])) if q["k"] == "var" else None
        q["lo"] = draw(st.sampled_from([None, 0.5]))
    return {"w": b.world, "eqs": eqs}


@st.composite
def strategy(draw):
    names = draw(st.permutations(["M0", "S", "tank", "a", "M", "x_y"]))
    src = draw(model_part("s"))
    if draw(st.booleans()):
        # adversarial local names: prefixes and suffixes of each other and of the models' names
        pool = list(draw(st.permutations(LOCAL)))
        for q, n in zip(src["w"], pool):
            q["n"] = n
    case = {"src": src, "own": draw(model_part("t", 2)), "sn": names[0], "tn": names[1], "un": names[2],
            "second": draw(st.one_of(st.none(), model_part("u", 2))), "s2n": names[3],
            "chain": draw(st.booleans()), "flags": draw(st.sampled_from([None, None, None, "noeq", "noren", "novar", "nopar", "nocon"])),
            "order": draw(st.booleans()), "repeat": draw(st.integers(0, 3)) == 0}
    if draw(st.integers(0, 3)) == 0:
        # the new name of one object is the old name of another: x_A, x_T_A become x_T_A, x_T_T_A
        case["tn"] = "T_" + case["sn"]
        if len(src["w"]) >= 2:
            i, j = draw(st.permutations(range(len(src["w"]))))[:2]
            src["w"][j]["n"] = src["w"][i]["n"] + "_T"
    for part, n in ((src, case["sn"]), (case["second"], case["s2n"])):
        if part is not None and draw(st.integers(0, 2)) == 0:
            # exposed variables of the source connected with each other
            d, v, k = draw(st.sampled_from(POOL)), draw(eighths()), len(part["w"])
            nm = ["ci", "co"] if part is src else ["di", "do"]
            for z, x in zip(nm, ("input", "output")):
                part["w"].append({"k": "var", "n": z, "d": list(d), "v": v if x == "input" else draw(eighths()), "s": False, "exp": x, "lo": None})
            part["eqs"].append({"n": "%s_%s--->%s_%s" % (nm[1], n, nm[0], n), "f": "residual", "l": ["sub", ["q", k], ["q", k + 1]], "r": ["n", 0], "conn": [k + 1, k]})
    return case


def make(part, name):
    m = Model(name, "")
    objs = []
    for q in part["w"]:
        if q["k"] == "var":
            o = m.createVariable(q["n"], mk_unit(q["d"]), "about " + q["n"], value=q["v"], lower_bound=q["lo"],
                                 is_exposed=q["exp"] is not None, type=q["exp"] or "")
        else:
            o = (m.createParameter if q["k"] == "par" else m.createConstant)(q["n"], mk_unit(q["d"]), "about " + q["n"], value=q["v"])
        if q["s"]:
            o.setValue(q["v"])
        objs.append(o)
    eqs = []
    for e in part["eqs"]:
        if "conn" in e:
            prob = Problem("p", "")
            prob.addModels(m)
            prob.createConnection(m, m, *[objs[i] for i in e["conn"]])
            eqs.append(m.equations[e["n"]])
        else:
            eqs.append(m.createEquation(e["n"], "", expr(e, objs)))
    return m, objs, eqs


def expr(e, objs):
    l = build(e["l"], objs)
    if e["f"] == "residual":
        return l
    return l == (e["r"][1] if e["f"] == "number" else build(e["r"], objs))


def qstate(q):
    return (q.name, q.value, q.is_specified, q.owner_model_name, q.description, q.latex_text, tuple(unit_vec(q.units)),
            getattr(q, "is_exposed", None), getattr(q, "type", None), getattr(q, "lower_bound", None))


def estate(e):
    sides = [] if e.elementary_equation_expression is None else list(e.elementary_equation_expression)
    return (e.name, e.owner_model_name, e.type, e.equation_form, tuple(sorted((k, id(v)) for k, v in e.objects_declared.items())),
            tuple((str(x.symbolic_object), str(x.repr_symbolic), tuple(sorted((k, id(v)) for k, v in x.symbolic_map.items())),
                   tuple(sorted((k, id(v)) for k, v in x.variable_map.items()))) for x in [e.equation_expression] + sides))


def mstate(m):
    return ([(k, id(v), qstate(v)) for t in (m.variables, m.parameters, m.constants) for k, v in t.items()],
            [(k, id(v), estate(v)) for k, v in m.equations.items()],
            {k: [id(v) for v in l] for k, l in m.exposed_vars.items()}, dict(m.ports))


def near(got, v, err, what):
    g = complex(got)
    check(abs(g.imag) <= tol(err, v) and abs(g.real - v) <= tol(err, v), "%s is %r, expected %r", what, got, v)


def verify(target, tname, parts, with_eq, rename=True, without=None):
    """target must contain exactly the given parts [(part, original model name, objects or None)]"""
    exp = {"var": [], "par": [], "con": []}
    for part, sname in parts:
        for q in part["w"]:
            if q["k"] == without and sname != tname:
                continue
            exp[q["k"]].append((q["n"] + "_" + (tname if rename or sname == tname else sname), q, sname != tname))
    for k, table in (("var", target.variables), ("par", target.parameters), ("con", target.constants)):
        check(sorted(table) == sorted(n for n, _, _i in exp[k]), "%s of the model: %s, expected %s", k, sorted(table), sorted(n for n, _, _i in exp[k]))
        for n, q, inc in exp[k]:
            o = table[n]
            check((o.name, o.value, bool(o.is_specified), o.owner_model_name, o.description) == (n, q["v"], q["s"], tname, "about " + q["n"])
                  and unit_vec(o.units) == [float(x) for x in q["d"]], "incorporated %s is %s", q, o.__dict__)
            check(not inc or getattr(target, q["n"], None) is o, "attribute %s of the model is not its object %s", q["n"], n)
            if k == "var":
                check(o.is_exposed == (q["exp"] is not None) and (o.type or "") == (q["exp"] or "") and o.lower_bound == q["lo"],
                      "exposure or bounds of %s", n)
    for t in ("input", "output"):
        got = sorted(v.name for v in target.exposed_vars[t])
        want = sorted(n for n, q, _i in exp["var"] if q["exp"] == t)
        check(got == want, "exposed as %s: %s, expected %s", t, got, want)
        check(all(any(v is x for x in target.variables.values()) for v in target.exposed_vars[t]), "an exposed variable is not the model's own object")
    want = [e["n"] + "_" + tname for part, sname in parts if with_eq or sname == tname for e in part["eqs"]]
    check(sorted(target.equations) == sorted(want), "equations: %s, expected %s", sorted(target.equations), sorted(want))
    own = {**target.variables, **target.parameters, **target.constants}
    for part, sname in parts:
        if not (with_eq or sname == tname):
            continue
        w = part["w"]
        suffix = "_" + tname
        m = {q["n"] + suffix: q["v"] for q in w if not q["s"]}
        for e in part["eqs"]:
            eq = target.equations[e["n"] + suffix]
            check(eq.name == e["n"] + suffix and eq.owner_model_name == tname, "name or owner of equation %s: %s %s", e["n"], eq.name, eq.owner_model_name)
            full = e["l"] if e["f"] == "residual" else ["sub", e["l"], e["r"]]
            names = {w[i]["n"] + suffix for i in syms(full)}
            check(set(eq.objects_declared) == names, "objects of equation %s: %s, expected %s", e["n"], sorted(eq.objects_declared), sorted(names))
            check(all(eq.objects_declared[n] is own[n] for n in names), "equation %s refers to objects that are not the model's own", e["n"])
            sides = [(None, full, eq.equation_expression)]
            if e["f"] != "residual":
                sides += [("lhs", e["l"], eq.elementary_equation_expression[0]), ("rhs", e["r"], eq.elementary_equation_expression[1])]
            for s, a, node in sides:
                check(set(node.symbolic_map) == {w[i]["n"] + suffix for i in syms(a)} and all(node.symbolic_map[n] is own[n] for n in node.symbolic_map),
                      "objects of side %s of equation %s: %s", s, e["n"], sorted(node.symbolic_map))
                check(set(node.variable_map) == {w[i]["n"] + suffix for i in syms(a) if not w[i]["s"]} and all(node.variable_map[n] is own[n] for n in node.variable_map),
                      "variables of side %s of equation %s: %s", s, e["n"], sorted(node.variable_map))
                try:
                    ref, err = ev(a, [q["v"] for q in w])
                except OutOfDomain:
                    continue
                if err > 1e-7 * (1 + abs(ref)):
                    continue
                near(eq.eval(m, s), ref, err, "%s of incorporated equation %s" % (s or "residual", show(a, w)))
                near(eq.eval(side=s), ref, err, "%s of incorporated equation %s at current values" % (s or "residual", show(a, w)))
                import sympy as sp
                disp = sp.sympify(node.repr_symbolic)
                near(disp.subs({sp.Symbol(q["n"] + suffix): q["v"] for q in w}).evalf(), ref, err, "displayed form of incorporated " + show(a, w))


def body(case, rec):
    src, so, se = make(case["src"], case["sn"])
    tn = case["tn"]
    types = {e["n"]: x.type for e, x in zip(case["src"]["eqs"], se)}
    before = mstate(src)
    flags = case["flags"]
    rename = flags != "noren"
    with_eq = flags is None
    parts = [(case["own"], tn), (case["src"], case["sn"])]
    kw = dict(incorporate_equations=with_eq)
    without = {"novar": "var", "nopar": "par", "nocon": "con"}.get(flags)
    if without:
        # only some kinds of objects
        kw["incorporate_" + {"var": "variables", "par": "parameters", "con": "constants"}[without]] = False
    if not rename:
        kw["rewrite_name"] = False
    if case["order"]:
        t, to, te = make(case["own"], tn)
        t.incorporateFromExternalModel(src, **kw)
    else:
        # incorporated first, own declarations afterwards
        t = Model(tn, "")
        t.incorporateFromExternalModel(src, **kw)
        for q in case["own"]["w"]:
            pass
        t2, _, _ = make(case["own"], tn)
        parts = [(case["src"], case["sn"])]
    check(mstate(src) == before, "incorporation changed the source model")
    verify(t, tn, parts, with_eq, rename, without)
    if with_eq:
        for n, ty in types.items():
            check(t.equations[n + "_" + tn].type == ty, "type of %s changed from %s to %s", n, ty, t.equations[n + "_" + tn].type)
    rec.label(str(flags), "own_first" if case["order"] else "alone", *(["connection"] if any("conn" in e for e in case["src"]["eqs"]) else []))
    # copies are independent
    for o in list(t.variables.values()) + list(t.parameters.values()):
        o.value = 99.5 if not o.is_specified else o.value
    check(mstate(src) == before, "changing the copy changed the source")
    for (part, _s) in parts:
        for q in part["w"]:
            if q["k"] == without and _s != tn:
                continue
            tab = {"var": t.variables, "par": t.parameters, "con": t.constants}[q["k"]]
            tab[q["n"] + "_" + (tn if rename or _s == tn else _s)].value = q["v"]
    if case["repeat"] and with_eq:
        # the same source once more, as at a reload of the receiving model
        t.incorporateFromExternalModel(src)
        check(mstate(src) == before, "incorporating again changed the source model")
        verify(t, tn, parts, True)
        rec.label("repeat")
    if case["second"] is not None and with_eq:
        src2, _, _ = make(case["second"], case["s2n"])
        b2 = mstate(src2)
        t.incorporateFromExternalModel(src2)
        parts = parts + [(case["second"], case["s2n"])]
        check(mstate(src2) == b2 and mstate(src) == before, "incorporation changed a source model")
        verify(t, tn, parts, with_eq)
        rec.label("two_sources")
    if case["chain"] and with_eq:
        u = Model(case["un"], "")
        bt = mstate(t)
        u.incorporateFromExternalModel(t)
        check(mstate(t) == bt, "incorporation changed the source model")
        verify(u, case["un"], [(p, tn) for p, _ in parts], True)
        rec.label("chain")
    n = sum(len(p["eqs"]) for p, _ in parts)
    rec.nt(with_eq and n >= 2 and any(nodes(e["l"]) >= 3 for e in case["src"]["eqs"]))


SUBS = [
    Sub("incorporate", strategy, body, 450, 5000,
        "random source model (quantities of all kinds, equations of all forms) incorporated into a model with or without its own "
        "objects, with flags, twice, and in a chain: tables, attributes, exposure, equations (value of every side, objects, types), "
        "and the sources unchanged; non-trivial: at least two equations, one composite", shards=7),
]
ASSUMPTIONS = ["local names are distinct across the incorporated models; no variable is distributed on a domain"]
