"""Generated multi-model algebraic problems with a known solution.

system = {"models": [{"n", "mode", "q": [quantities], "eqs": [{"n", "l", "r", "f"}]}],
          "conns": [{"from": m, "outs": [i..], "to": m2, "ins": [j..], "mode"}],
          "sol": {full name: value}}
A quantity is as in gen.py (local name, kind, dimension, value, specified) with "exp" (exposure)
and "role": "own" (determined by an equation of its model), "in" (by a connection), "unused".
For variables "v" is the value in the solution.
"""
import importlib

from hypothesis import strategies as st
import numpy as np

from .gen import *  # noqa

_DIMS = [ZERO, ZERO, [0.125, 0, -1.5, 0, 0, 0, 0], [1, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0], [0, 1, -1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 0, 0]]
NAMES = ["a", "b", "T in", "k-1", "y.out", "c", "T", "x1", "x10", "x", "flow", "k_2", "y_in", "y", "h", "Q", "w"]
MNAMES = ["M0", "tank 2", "T-101", "M1", "tank", "M", "S", "mix_1", "L0", "a"]


def mods():
    global _M
    try:
        return _M
    except NameError:
        pass
    import types
    _M = types.SimpleNamespace(
        Model=importlib.import_module("src.sloth.model").Model,
        Problem=importlib.import_module("src.sloth.problem").Problem,
        Simulation=importlib.import_module("src.sloth.simulation").Simulation,
        solvers=importlib.import_module("src.sloth.solvers"),
        analysis=importlib.import_module("src.sloth.analysis"))
    return _M


class _Part:
    """one model under construction"""

    def __init__(self, draw, name, mode):
        self.draw, self.name, self.mode = draw, name, mode
        self.q, self.eqs, self.names = [], [], list(draw(st.permutations(NAMES)))

    def new(self, k, d, v, s=False, exp=None, role="own", n=None):
        n = n or (self.names.pop() if self.names and k == "var" else "%s%d" % ({"var": "v", "par": "p", "con": "c"}[k], len(self.q)))
        self.q.append({"k": k, "n": n, "d": list(d), "v": v, "s": s, "exp": exp, "role": role})
        return len(self.q) - 1

    def coef(self, ast, c, d_from, d_to):
        """c * ast, brought from dimension d_from to d_to by a specified quantity if needed"""
        d = vsub(d_to, d_from)
        if any(d) or self.draw(st.integers(0, 4)) == 0:
            p = self.new(self.draw(st.sampled_from(["par", "par", "con"])), d, c, s=True)
            return ["mul", ["q", p], ast] if self.draw(st.booleans()) else ["mul", ast, ["q", p]]
        w = self.draw(st.integers(0, 3))
        if w == 0 and c in (1, 1.0):
            return ast
        if w == 1:
            return ["mul", ["n", c], ast]
        if w == 2 and c in (0.5, 0.25, 2.0, -2.0, 4.0, -0.5):
            return ["div", ast, ["n", 1 / c]]
        return ["mul", ast, ["n", c]]


def _sum(draw, terms):
    ast = terms[0]
    for t in terms[1:]:
        ast = ["add", ast, t]
    return ast


def linear_equation(draw, part, i, coefs, mk_const=None):
    """sum_j coefs[j] * q_j == const, in a random shape; returns (lhs, rhs, form)"""
    d = part.q[i]["d"]
    left, right = [], []
    const = 0.
    for j, c in coefs:
        const += c * part.q[j]["v"]
        if draw(st.integers(0, 3)) == 0 and (left or right):
            right.append(part.coef(["q", j], -c, part.q[j]["d"], d))
        else:
            left.append(part.coef(["q", j], c, part.q[j]["d"], d))
    if not left:
        left, right = right, left
        const = -const
    left = draw(st.permutations(left))
    l = _sum(draw, left)
    f = draw(st.sampled_from(["residual", "two", "number"]))
    if f == "number" and not right:
        if draw(st.booleans()):
            k = draw(NUM)
            return ["add", l, ["n", k]], ["n", const + k], "number"
        return l, ["n", const], "number"
    r = _sum(draw, right) if right else None
    if r is None:
        if f == "two":
            # a specified quantity alone on the right
            p = part.new(draw(st.sampled_from(["par", "con"])), d, const, s=True)
            return l, ["q", p], "two"
        return ["sub", l, ["n", const]], ["n", 0.], "residual"
    r = ["add", r, ["n", const]] if draw(st.booleans()) else ["add", ["n", const], r]
    if f == "residual":
        return ["sub", l, r], ["n", 0.], "residual"
    return l, r, "two"


def _monotone(draw, part, i):
    """a strictly increasing function of quantity i as expression of dimension zero"""
    x = ["q", i]
    if any(part.q[i]["d"]):
        p = part.new("par", vscale(part.q[i]["d"], -1), 1.0, s=True)
        x = ["mul", x, ["q", p]]
    k = draw(st.sampled_from(["cube", "exp", "sin", "lin", "abs", "max", "nest", "tanlike", "log"]))
    a = draw(st.sampled_from([1, 2, 0.5, 3.0]))
    if k == "cube":
        return ["add", ["pow", x, 3], ["mul", ["n", a], x]]
    if k == "exp":
        return ["add", ["fn", "Exp", ["mul", x, ["n", 0.25]]], ["mul", ["n", a], x]]
    if k == "sin":
        return ["add", ["mul", ["n", a + 1], x], ["fn", "Sin", x]]
    if k == "abs":
        return ["add", ["mul", ["n", 3], x], ["fn", "Abs", x]]
    if k == "max":
        return ["add", ["mul", ["n", a], x], ["max", x, ["n", draw(POS) + 0.0625]]]
    if k == "nest":
        # a value kept between two limits (deeper nests: C04; sympy cannot differentiate them in reasonable time)
        c = [["n", draw(eighths(1, 24)) + off] if draw(st.booleans()) else ["q", part.new("par", ZERO, draw(eighths(1, 24)) + off, s=True)] for off in (0.0390625, 0.01171875)]
        o = ["min", "max"] if draw(st.booleans()) else ["max", "min"]
        y = [o[0], [o[1], x, c[0]], c[1]]
        try:
            ev(y, [q["v"] for q in part.q])
        except OutOfDomain:
            return ["mul", ["n", a], x]
        return ["add", ["mul", ["n", a], x], y]
    if k == "tanlike":
        return ["add", x, ["div", x, ["add", ["n", 2], ["mul", x, x]]]]
    if k == "log":
        return ["add", ["mul", ["n", a], x], ["fn", "Log", ["add", ["mul", x, x], ["n", 2]]]] if a > 0.5 else ["mul", ["n", a], x]
    return ["mul", ["n", a], x]


def _coupling(draw, part, js):
    terms = []
    for j in js:
        x = ["q", j]
        if any(part.q[j]["d"]):
            p = part.new("par", vscale(part.q[j]["d"], -1), draw(st.sampled_from([1.0, 0.5, 2.0])), s=True)
            x = ["mul", x, ["q", p]]
        k = draw(st.sampled_from(["lin", "sq", "cos", "prod"]))
        if k == "sq":
            x = ["pow", x, 2]
        elif k == "cos":
            x = ["fn", "Cos", x]
        elif k == "prod":
            x = ["mul", x, ["sub", x, ["n", 1]]]
        terms.append(["mul", ["n", draw(st.sampled_from([1, -1, 0.5, 0.25]))], x])
    return _sum(draw, terms)


@st.composite
def system(draw, nonlinear=False, max_models=3, max_vars=3, conns=True, values=None, unused=True, coefs=None):
    nm = draw(st.integers(1, max_models))
    mnames = list(draw(st.permutations(MNAMES)))
    vals = values or eighths(-24, 24)
    models, conlist = [], []
    parts = []
    for m in range(nm):
        p = _Part(draw, mnames[m], draw(st.sampled_from(["init", "declare", "init", "subclass"])))
        # inputs, fed from earlier models
        ins = []
        if conns and m > 0 and draw(st.integers(0, 5)) > 0:
            for _ in range(draw(st.integers(1, 2))):
                src = draw(st.integers(0, m - 1))
                cands = [i for i, q in enumerate(parts[src].q) if q["k"] == "var" and q["role"] != "unused" and q["exp"] != "input"]
                outs = list(draw(st.lists(st.sampled_from(cands), min_size=1, max_size=2, unique=True)))
                d0 = parts[src].q[outs[0]]["d"]
                outs = [o for o in outs if parts[src].q[o]["d"] == d0]
                v = sum(parts[src].q[o]["v"] for o in outs)
                mode = draw(st.sampled_from(["vars", "vars", "expr", "scaled"]))
                scale = 1
                if mode == "scaled":
                    scale = draw(st.sampled_from([2, 0.5, -1]))
                for o in outs:
                    if mode == "vars":
                        parts[src].q[o]["exp"] = "output"
                j = p.new("var", d0, v * scale, exp="input", role="in")
                ins.append(j)
                conlist.append({"from": src, "outs": outs, "to": m, "ins": [j], "mode": mode, "scale": scale,
                                "aslist": draw(st.booleans())})
        own = [p.new("var", draw(st.sampled_from(_DIMS)), draw(vals), exp=draw(st.sampled_from([None, None, "output"])))
               for _ in range(draw(st.integers(1, max_vars)))]
        for pos, i in enumerate(own):
            others = [j for j in ins + own if j != i]
            js = list(draw(st.lists(st.sampled_from(others), max_size=3, unique=True))) if others else []
            if not nonlinear or draw(st.integers(0, 3)) == 0:
                if nonlinear:
                    js = [j for j in js if j in ins or own.index(j) < pos]
                tot = 0.
                cs = []
                for j in js:
                    c = draw(st.sampled_from(coefs or [1, -1, 2.0, 0.5, -3, 0.25]))
                    tot += abs(c)
                    cs.append((j, c))
                diag = draw(st.sampled_from([1.37, 2.718281828, 0.7182, -2.0001] if coefs else [1, 2, 0.5, -2.0]))
                if not nonlinear:
                    diag = (tot + abs(diag)) * (1 if diag > 0 else -1)
                l, r, f = linear_equation(draw, p, i, [(i, diag)] + cs)
            else:
                js = [j for j in js if j in ins or own.index(j) < pos]
                l = _monotone(draw, p, i)
                if js:
                    l = ["add", l, _coupling(draw, p, js)]
                w = [q["v"] for q in p.q]
                try:
                    c, _ = ev(l, w)
                except OutOfDomain:
                    # (e.g. an unknown fed by a connection that is zero)
                    l = ["q", i] if not any(p.q[i]["d"]) else ["mul", ["q", i], ["q", p.new("par", vscale(p.q[i]["d"], -1), 1.0, s=True)]]
                    w = [q["v"] for q in p.q]
                    c, _ = ev(l, w)
                f = draw(st.sampled_from(["residual", "two", "number"]))
                if f == "residual":
                    l, r = ["sub", l, ["n", c]], ["n", 0.]
                elif f == "number":
                    r = ["n", c]
                else:
                    r = ["q", p.new("par", ZERO, c, s=True)]
            p.eqs.append({"n": "eq%d" % i, "l": l, "r": r, "f": f})
        if unused and draw(st.booleans()):
            p.new("var", draw(st.sampled_from(_DIMS)), draw(vals), role="unused")
            if draw(st.booleans()):
                p.new("par", ZERO, 1.5, s=draw(st.booleans()), role="unused")
        p.eqs = list(draw(st.permutations(p.eqs)))
        parts.append(p)
    for p in parts:
        models.append({"n": p.name, "mode": p.mode, "q": p.q, "eqs": p.eqs, "order": list(draw(st.permutations(range(len(p.q)))))})
    # the order in which models are added to the problem is free
    return {"models": models, "conns": conlist, "add": list(draw(st.permutations(range(nm)))), "addlist": draw(st.sampled_from([False, True, False, True, "made", "made", "replaced", "replaced1"]))}


def solution(sysd):
    return {q["n"] + "_" + m["n"]: q["v"] for m in sysd["models"] for q in m["q"] if q["k"] == "var" and q["role"] != "unused"}


def declare_q(model, q):
    if q["k"] == "var":
        o = model.createVariable(q["n"], mk_unit(q["d"]), q["n"], is_exposed=q["exp"] is not None, type=q["exp"] or "")
        if q["s"]:
            o.setValue(q["v"])
    else:
        o = (model.createParameter if q["k"] == "par" else model.createConstant)(q["n"], mk_unit(q["d"]), q["n"], **({"value": q["v"]} if q.get("given") else {}))
        if q["s"]:
            o.setValue(q["v"])
    return o


def equation_expr(e, objs):
    l = build(e["l"], objs)
    if e["f"] == "residual":
        return l
    return l == (e["r"][1] if e["f"] == "number" else build(e["r"], objs))


def make_model(md):
    """a user-defined model class, declaring its objects in one of the documented ways"""
    M = mods()
    order = md["order"]
    if md["mode"] == "init":
        class UserModel(M.Model):
            def __init__(self, name, description=""):
                super().__init__(name, description)
                self.objs = [None] * len(md["q"])
                self.made = {}
                for i in order:
                    self.objs[i] = declare_q(self, md["q"][i])

            def DeclareEquations(self):
                for e in md["eqs"]:
                    self.made[e["n"]] = self.createEquation("" if e.get("un") else e["n"], "", equation_expr(e, self.objs))
    else:
        class UserModel(M.Model):
            def __init__(self, name, description=""):
                super().__init__(name, description)
                self.objs = [None] * len(md["q"])
                self.made = {}

            def _decl(self, k):
                for i in order:
                    if md["q"][i]["k"] == k:
                        self.objs[i] = declare_q(self, md["q"][i])

            def DeclareVariables(self):
                self._decl("var")

            def DeclareParameters(self):
                self._decl("par")

            def DeclareConstants(self):
                self._decl("con")

            def DeclareEquations(self):
                for e in md["eqs"]:
                    self.made[e["n"]] = self.createEquation("" if e.get("un") else e["n"], "", equation_expr(e, self.objs))
        if md["mode"] == "subclass":
            class Derived(UserModel):
                def __init__(self, name, description=""):
                    super().__init__(name, description)
            UserModel = Derived
    m = UserModel(md["n"], "")
    m.md = md
    m()
    return m


def connect(prob, ms, c):
    src, dst = ms[c["from"]], ms[c["to"]]
    outs, ins = [src.objs[i] for i in c["outs"]], [dst.objs[i] for i in c["ins"]]
    if c["mode"] == "vars":
        if len(outs) == 1 and not c["aslist"]:
            prob.createConnection(src, dst, outs[0], ins[0])
        else:
            prob.createConnection(src, dst, outs, ins if c["aslist"] else ins[0])
    else:
        e = outs[0]()
        for o in outs[1:]:
            e = e + o()
        if c["mode"] == "scaled":
            e = c["scale"] * e
        prob.createConnection(src if c["aslist"] else "", dst, e, ins[0]())


def make_problem(sysd, name="prob"):
    M = mods()
    ms = [make_model(md) for md in sysd["models"]]
    conns_first = sysd.get("conn_first", False)
    add = [ms[i] for i in sysd["add"]]
    if sysd["addlist"] == "made":
        # the models given when the problem is made; the dictionary stays the caller's
        given = {m.name: m for m in add}
        prob = M.Problem(name, "", models=given)
        given.clear()
    else:
        prob = M.Problem(name, "")
    if conns_first:
        for c in sysd["conns"]:
            connect(prob, ms, c)
    if sysd["addlist"] == "made":
        pass
    elif sysd["addlist"] in ("replaced", "replaced1"):
        # models of the same names were there before
        for m in add:
            decoy = M.Model(m.name, "former")
            z = decoy.createVariable("former", mk_unit(ZERO), "")
            decoy.createEquation("former", "", z() - 1.)
            prob.addModels(decoy)
        prob.addModels(add if sysd["addlist"] == "replaced" else add[:1])
        for m in add[1:]:
            prob.addModels(m)
    elif sysd["addlist"]:
        prob.addModels(add)
    else:
        for m in add:
            prob.addModels(m)
    if not conns_first:
        for c in sysd["conns"]:
            connect(prob, ms, c)
    return prob, ms


def all_residuals(sysd, x):
    """independent residuals of all equations at values x: list of (name, value, error, scale)"""
    out = []
    for m in sysd["models"]:
        v = [x.get(q["n"] + "_" + m["n"], q["v"]) if q["k"] == "var" else q["v"] for q in m["q"]]
        for e in m["eqs"]:
            a, ea = ev(e["l"], v)
            b, eb = ev(e["r"], v)
            out.append((m["n"] + "." + e["n"], a - b, ea + eb, abs(a) + abs(b) + 1))
    for c in sysd["conns"]:
        so, si = sysd["models"][c["from"]], sysd["models"][c["to"]]
        a = sum(x[so["q"][i]["n"] + "_" + so["n"]] for i in c["outs"]) * c["scale"]
        b = sum(x[si["q"][i]["n"] + "_" + si["n"]] for i in c["ins"])
        out.append(("connection", b - a, 1e-15, abs(a) + abs(b) + 1))
    return out
