"""C10 a model's equations speak only of objects declared in that model; the tables of a model."""
import importlib

from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation

S = sloth()
Model = importlib.import_module("src.sloth.model").Model
IDENT = ["a", "b", "T", "x1", "flow", "k_2", "P_in", "y", "A_B"]


@st.composite
def strategy(draw):
    ops_ = []
    names = []
    for i in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["var", "var", "par", "con"]))
        n = draw(st.sampled_from(IDENT).filter(lambda z: z not in names)) if draw(st.booleans()) else "z%d" % i
        names.append(n)
        ops_.append({"op": "new", "k": k, "n": n, "d": draw(st.sampled_from(POOL)), "v": draw(eighths()), "s": k != "var" and draw(st.booleans()),
                     "exp": draw(st.sampled_from([None, None, "input", "output"])) if k == "var" else None,
                     "lo": draw(st.sampled_from([None, -1.5, 0, 0.])), "hi": draw(st.sampled_from([None, 7.5, 100])),
                     "tex": draw(st.sampled_from([None, None, "\\alpha_{1}", "x^{0}", "T_w"]))})
    if draw(st.integers(0, 2)) == 0:
        # declared again, as by a model that is called again, perhaps with other attributes
        o = dict(draw(st.sampled_from(ops_)))
        if draw(st.booleans()):
            o.update(d=draw(st.sampled_from(POOL)), v=draw(eighths()), exp=draw(st.sampled_from([None, "input", "output"])) if o["k"] == "var" else None)
        ops_.append(o)
    for i in range(draw(st.integers(1, 5))):
        nu = draw(st.integers(1, 4))
        ops_.append({"op": "eq", "n": "e%d" % i, "use": draw(st.lists(st.integers(0, 40), min_size=nu, max_size=nu)),
                     "alien": draw(st.sampled_from([None, None, "loose", "sibling", "similar", "source", "suffix", "prefix", "ghost"])), "ak": draw(st.sampled_from(["var", "par", "con"])),
                     "as": draw(st.booleans()), "side": draw(st.sampled_from(["residual", "lhs", "rhs", "zero"])),
                     "where": draw(st.sampled_from(["term", "factor", "min", "power"])),
                     "nocheck": draw(st.integers(0, 5)) == 0})
    # interleave: equations may come before later declarations
    order = draw(st.permutations(range(len(ops_)))) if draw(st.booleans()) else list(range(len(ops_)))
    return {"m": draw(st.sampled_from(["M0", "tank", "a", "M_1", "T-101", "my tank"])), "ops": [ops_[i] for i in order]}


def make(model, o):
    kw = {"latex_text": o["tex"]} if o.get("tex") else {}
    if o["k"] == "var":
        kw.update(lower_bound=o["lo"], upper_bound=o["hi"], is_exposed=o["exp"] is not None, type=o["exp"] or "")
    f = {"var": model.createVariable, "par": model.createParameter, "con": model.createConstant}[o["k"]]
    q = f(o["n"], mk_unit(o["d"]), "description of " + o["n"], value=o["v"], **kw)
    if o["s"]:
        q.setValue(o["v"])
    return q


def body(case, rec):
    m = Model(case["m"], "")
    sib = Model("other", "")
    own = []
    tables = {"var": {}, "par": {}, "con": {}}
    exposed = {"input": [], "output": []}
    eqs = {}
    acc = ref = 0
    for o in case["ops"]:
        if o["op"] == "new":
            q = make(m, o)
            own.append((o, q))
            full = o["n"] + "_" + case["m"]
            if full in tables[o["k"]]:
                rec.label("declared_again")
                # equations use the object declared last
                own[:] = [x for x in own if x[0]["n"] != o["n"] or x[1] is q]
            tables[o["k"]][full] = q
            for k in exposed:
                exposed[k] = [x for x in exposed[k] if x.name != full]
            if o["exp"]:
                exposed[o["exp"]].append(q)
            check(q.name == full, "object %s of model %s is called %s", o["n"], case["m"], q.name)
            check(q.value == o["v"] and unit_vec(q.units) == [float(x) for x in o["d"]] and q.owner_model_name == case["m"]
                  and q.description == "description of " + o["n"] and q.latex_text == (o["tex"] or o["n"]),
                  "declared %s, got %s", o, q.__dict__)
            if o["k"] == "var":
                check(q.lower_bound == o["lo"] and q.upper_bound == o["hi"] and bool(q.is_lower_bounded) == (o["lo"] is not None)
                      and bool(q.is_upper_bounded) == (o["hi"] is not None), "bounds of %s: %s", o, q.__dict__)
                check(q.is_exposed == (o["exp"] is not None) and q.type == (o["exp"] or ""), "exposure of %s", o)
        else:
            objs = [own[i % len(own)][1] for i in o["use"]] if own else []
            alien = None
            if o["alien"] or not objs:
                kind = o["ak"]
                cls = {"var": S.Variable, "par": S.Parameter, "con": S.Constant}[kind]
                u = mk_unit([0] * 7)
                if o["alien"] == "sibling":
                    alien = make(sib, {"k": kind, "n": "s" + o["n"], "d": ZERO, "v": 2.5, "s": False, "exp": None, "lo": None, "hi": None})
                elif o["alien"] == "similar":
                    # the undecorated name of an own object
                    alien = cls(own[0][0]["n"] if own else "q", u, "", value=2.5)
                elif o["alien"] == "source":
                    # an object of a model that used to have objects of the same local name
                    alien = make(sib, {"k": kind, "n": own[-1][0]["n"] if own else "q", "d": ZERO, "v": 2.5, "s": False, "exp": None, "lo": None, "hi": None})
                elif o["alien"] in ("suffix", "prefix"):
                    # an object of a model whose name ends or starts with the name of this one
                    near = Model("s_" + case["m"] if o["alien"] == "suffix" else case["m"] + "_s", "")
                    alien = make(near, {"k": kind, "n": "q" + o["n"], "d": ZERO, "v": 2.5, "s": False, "exp": None, "lo": None, "hi": None})
                elif o["alien"] == "ghost":
                    # named as an object of this model would be, and never declared
                    alien = cls("ghost_%s_%s" % (o["n"], case["m"]), u, "", value=2.5, owner_model_name=case["m"])
                else:
                    alien = cls("loose_%s" % o["n"], u, "", value=2.5)
                if o["as"]:
                    alien.setValue(2.5)
            e = None
            for q in objs:
                # ratio-free product: no coherence needed
                e = q() if e is None else e * q()
            if alien is not None:
                al = alien()
                if e is None:
                    e = al * 2
                elif o["where"] == "term":
                    e = e + e * al
                elif o["where"] == "factor":
                    e = al * e
                elif o["where"] == "min":
                    e = S.ops.Min(e, e * al)
                else:
                    e = e * al ** 2
            expr = {"residual": lambda: e, "lhs": lambda: e == 0., "zero": lambda: e == 1, "rhs": lambda: e * 1 == e * 2}[o["side"]]()
            before = dict(m.equations)
            try:
                r = m.createEquation(o["n"], "", expr, check_equation=not o["nocheck"])
            except S.err.UnexpectedObjectDeclarationError:
                check(alien is not None and not o["nocheck"], "an equation over declared objects only was refused: %s", o)
                check(m.equations == before, "a refused equation changed the model")
                ref += 1
                rec.label("refused", o["alien"] or "none", o["where"])
            else:
                check(alien is None or o["nocheck"], "an equation using the undeclared object %s (%s) was accepted", alien and alien.name, o)
                check(r is not None and r.name == o["n"] + "_" + case["m"] and m.equations.get(r.name) is r, "equation not registered under its name")
                eqs[r.name] = r
                acc += 1
                rec.label("accepted")
        check(dict(m.equations) == eqs and list(m.equations) == list(eqs), "equations of the model: %s, expected %s", list(m.equations), list(eqs))
        for k, t in (("var", m.variables), ("par", m.parameters), ("con", m.constants)):
            check(list(t) == list(tables[k]) and all(t[z] is tables[k][z] for z in t), "declared %s of the model: %s, expected %s", k, list(t), list(tables[k]))
        check({k: sorted(id(v) for v in l) for k, l in m.exposed_vars.items()} == {k: sorted(id(v) for v in l) for k, l in exposed.items()},
              "exposed variables %s, declared were %s", {k: [v.name for v in l] for k, l in m.exposed_vars.items()}, {k: [v.name for v in l] for k, l in exposed.items()})
    i, out = m._infoInputOutputVariables(False)
    check(sorted(i) == sorted(q.name for q in exposed["input"]) and sorted(out) == sorted(q.name for q in exposed["output"]), "reported inputs/outputs %s %s", i, out)
    check(not Model("fresh", "").variables and not Model("fresh", "").equations, "a new model is not empty")
    rec.nt(acc >= 1 and ref >= 1)


SUBS = [
    Sub("declarations", strategy, body, 800, 8000,
        "histories of declarations and equations (some over foreign objects) on a model: tables, exposure, bounds, and refusal of "
        "equations using undeclared objects with nothing changed; non-trivial: one accepted and one refused equation", shards=4),
]
ASSUMPTIONS = ["object names are valid identifiers; a name declared again is declared as an object of the same kind"]
