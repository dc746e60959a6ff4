"""Generators of quantities and expressions, and the reference evaluator used as oracle.

A *world* is a list of quantity descriptions (plain JSON); an expression is a nested list:
  ["q", i]                 quantity i of the world
  ["n", x]                 a plain number (only as an operand of a binary operation)
  ["add"|"sub"|"mul"|"div", a, b]
  ["pow", a, x]            power by a number
  ["powq", a, i]           power by the specified dimensionless quantity i
  ["powe", a, b]           power by the dimensionless expression b
  ["fn", name, a]          Log, Log10, Sqrt, Abs, Exp, Sin, Cos, Tan
  ["min"|"max", a, b, ..]  numbers allowed among the operands
  ["sum", a, b, ..]        Python's builtin sum()
  ["diff", i, j]           derivative of variable i with respect to variable j

The evaluator below knows nothing of the code under test: values are Python floats with a
running error bound, dimensions are 7-vectors of exact (dyadic) exponents.
"""
import math

from hypothesis import strategies as st

DIMS = ["m", "kg", "s", "A", "K", "mol", "cd"]
ZERO = [0] * 7
POOL = [ZERO, ZERO, [1, 0, 0, 0, 0, 0, 0], [0, 1, 0, 0, 0, 0, 0], [0, 0, 1, 0, 0, 0, 0],
        [0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1, 0], [1, 0, -1, 0, 0, 0, 0], [0, 0, -1, 0, 0, 0, 0],
        [-1, 1, -2, 0, 0, 0, 0], [0, 1, -1, 0, 0, 0, 0], [2, 1, -2, 0, 0, -1, 0], [0, 0, 0, 1, 0, 0, 1]]
FNS = ["Log", "Log10", "Sqrt", "Abs", "Exp", "Sin", "Cos", "Tan"]
BIG = 1e5


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vscale(a, k):
    return [x * k for x in a]


class OutOfDomain(Exception):
    pass


# ------------------------------------------------------------------ reference evaluator
EPS = 2.3e-16


def ev(ast, vals):
    """value and absolute error bound (in doubles) of ast for quantity values vals."""
    op = ast[0]
    if op == "q":
        return float(vals[ast[1]]), 0.0
    if op == "n":
        return float(ast[1]), 0.0
    if op in ("add", "sub", "mul", "div"):
        a, ea = ev(ast[1], vals)
        b, eb = ev(ast[2], vals)
        if op == "add":
            v, e = a + b, ea + eb
        elif op == "sub":
            v, e = a - b, ea + eb
        elif op == "mul":
            v, e = a * b, abs(a) * eb + abs(b) * ea
        else:
            if abs(b) < 1e-3:
                raise OutOfDomain()
            v, e = a / b, ea / abs(b) + abs(a) * eb / b ** 2
        e += EPS * (abs(a) + abs(b) + abs(v))
        if not abs(v) < 1e12:
            raise OutOfDomain()
        return v, e
    if op in ("pow", "powq"):
        a, ea = ev(ast[1], vals)
        p = float(ast[2]) if op == "pow" else float(vals[ast[2]])
        if abs(a) < 1e-3 or (a < 0 and p != int(p)):
            raise OutOfDomain()
        try:
            v = a ** p
        except OverflowError:
            raise OutOfDomain()
        e = abs(p * v / a) * ea + EPS * abs(v) * (2 + abs(p))
        if not abs(v) < 1e12:
            raise OutOfDomain()
        return v, e
    if op == "powe":
        (a, ea), (p, ep) = ev(ast[1], vals), ev(ast[2], vals)
        if a < 1e-3 or abs(p) > 50:
            raise OutOfDomain()
        v = a ** p
        if not 1e-12 < v < 1e12:
            raise OutOfDomain()
        return v, v * (abs(p / a) * ea + abs(math.log(a)) * ep + EPS * (3 + 2 * abs(p) + abs(p * math.log(a))))
    if op == "fn":
        a, ea = ev(ast[2], vals)
        f = ast[1]
        if f in ("Log", "Log10", "Sqrt") and a < 1e-3:
            raise OutOfDomain()
        if f == "Exp" and a > 25:
            raise OutOfDomain()
        if f in ("Sin", "Cos", "Tan") and abs(a) > 1e3:
            raise OutOfDomain()
        if f == "Tan" and abs(math.cos(a)) < 1e-2:
            raise OutOfDomain()
        v = {"Log": math.log, "Log10": math.log10, "Sqrt": math.sqrt, "Abs": abs, "Exp": math.exp,
             "Sin": math.sin, "Cos": math.cos, "Tan": math.tan}[f](a)
        d = {"Log": lambda: 1 / a, "Log10": lambda: 1 / a, "Sqrt": lambda: .5 / v, "Abs": lambda: 1.,
             "Exp": lambda: v, "Sin": lambda: 1., "Cos": lambda: 1., "Tan": lambda: 1 + v * v}[f]()
        return v, abs(d) * (ea + EPS * abs(a)) + 4 * EPS * (abs(v) + 1)
    if op in ("min", "max"):
        r = [ev(x, vals) for x in ast[1:]]
        z = sorted(x for x, _ in r)
        # sympy cannot order operands that tie, or that cancel to zero, symbolically
        if any(abs(x) < 1e-6 for (x, _), a in zip(r, ast[1:]) if a[0] != "n") or any(abs(x - y) < 1e-6 * (1 + abs(x)) for x, y in zip(z, z[1:])):
            raise OutOfDomain()
        v = (min if op == "min" else max)(z)
        return v, max(e for _, e in r) + EPS * abs(v)
    if op == "sum":
        r = [ev(x, vals) for x in ast[1:]]
        return sum(x for x, _ in r), sum(e + EPS * 3 * abs(x) for x, e in r)
    raise ValueError(op)


def tol(err, v):
    return 200 * err + 1e-12 * (1 + abs(v))


def dim(ast, world):
    op = ast[0]
    if op == "q":
        return list(world[ast[1]]["d"])
    if op == "n":
        return None
    if op in ("add", "sub", "min", "max", "sum"):
        for x in ast[1:]:
            d = dim(x, world)
            if d is not None:
                return d
        return None
    if op in ("mul", "div"):
        a, b = dim(ast[1], world) or ZERO, dim(ast[2], world) or ZERO
        return vadd(a, b) if op == "mul" else vsub(a, b)
    if op == "pow":
        return vscale(dim(ast[1], world), ast[2])
    if op == "powq":
        return vscale(dim(ast[1], world), world[ast[2]]["v"])
    if op == "powe":
        if all(world[i]["s"] for i in syms(ast[2])):
            return vscale(dim(ast[1], world), ev(ast[2], [q["v"] for q in world])[0])
        return list(ZERO)
    if op == "fn":
        return list(ZERO)
    if op == "diff":
        return vsub(world[ast[1]]["d"], world[ast[2]]["d"])
    raise ValueError(op)


def syms(ast):
    op = ast[0]
    if op == "q":
        return {ast[1]}
    if op == "n":
        return set()
    if op == "powq":
        return syms(ast[1]) | {ast[2]}
    if op == "diff":
        return {ast[1]}
    out = set()
    for x in ast[1:]:
        if isinstance(x, list):
            out |= syms(x)
    return out


def nodes(ast):
    n = 1
    for x in ast[1:]:
        if isinstance(x, list):
            n += nodes(x)
    return n


def ops(ast, out=None):
    out = set() if out is None else out
    out.add(ast[1] if ast[0] == "fn" else ast[0])
    for x in ast[1:]:
        if isinstance(x, list):
            ops(x, out)
    return out


def has_diff(ast):
    return "diff" in ops(ast)


def plain_affine(ast, world):
    """True for the grammar in which linearity is evident: sums and differences of quantities,
    numbers, and products/quotients by numbers or specified quantities."""
    op = ast[0]
    if op in ("q", "n"):
        return True
    if op in ("add", "sub"):
        return plain_affine(ast[1], world) and plain_affine(ast[2], world)
    if op == "sum":
        return all(plain_affine(x, world) for x in ast[1:])
    if op == "mul":
        return (plain_affine(ast[1], world) and _const(ast[2], world)) or (
            plain_affine(ast[2], world) and _const(ast[1], world))
    if op == "div":
        # (a number over something is not in this grammar: it is a power)
        return ast[1][0] != "n" and plain_affine(ast[1], world) and _const(ast[2], world)
    return False


def _const(ast, world):
    return ast[0] == "n" or (ast[0] == "q" and world[ast[1]]["s"])


# ------------------------------------------------------------------ strategies
def eighths(lo=-40, hi=40):
    return st.integers(lo, hi).map(lambda k: (k if k else 3) / 8.0)


POS = st.integers(1, 40).map(lambda k: k / 8.0)
# values of quantities, as a user writes them: 2.5, 3.0 or 3
VALUES = st.one_of(eighths(), eighths(), st.integers(-5, 5).map(lambda k: k or 4))
NUM = st.one_of(eighths(), st.integers(-5, 5).filter(lambda k: k != 0), st.sampled_from([-1, 1, 2, 0.5]))


class Builder:
    """Draws an expression of a requested dimension while tracking its value, so that the
    result is in the domain of its functions by construction (operands are repaired, not
    rejected)."""

    def __init__(self, draw, max_q=5, kinds=("var", "par", "con"), fns=True, nonlin=True, diffs=False, minmax=True,
                 powq=True, spec=True, prefix="", zeros=True):
        self.draw, self.max_q, self.kinds = draw, max_q, kinds
        self.world, self.fns, self.nonlin, self.diffs, self.minmax, self.powq = [], fns, nonlin, diffs, minmax, powq
        self.spec, self.prefix, self.zeros, self.values = spec, prefix, zeros, VALUES

    def vals(self):
        return [q["v"] for q in self.world]

    def val(self, ast):
        return ev(ast, self.vals())[0]

    def new_q(self, d, kind=None, spec=None, v=None):
        k = kind or self.draw(st.sampled_from(self.kinds))
        if spec is None:
            spec = self.spec and (self.draw(st.booleans()) if k != "var" else self.draw(st.sampled_from([False, False, False, True])))
        if v is None:
            v = self.draw(self.values)
            if spec and self.zeros and self.draw(st.integers(0, 11)) == 0:
                v = self.draw(st.sampled_from([0, 0.0]))
        self.world.append({"k": k, "n": "%s%s%d" % (self.prefix, {"var": "x", "par": "p", "con": "c"}[k], len(self.world)),
                           "d": [float(z) if z != int(z) else int(z) for z in d], "v": v, "s": bool(spec)})
        return ["q", len(self.world) - 1]

    def leaf(self, d):
        same = [i for i, q in enumerate(self.world) if list(q["d"]) == list(d)]
        if same and (len(self.world) >= self.max_q or self.draw(st.integers(0, 2)) > 0):
            return ["q", self.draw(st.sampled_from(same))]
        return self.new_q(d)

    def expr(self, d, depth):
        if depth <= 0:
            return self.leaf(d)
        ch = ["leaf", "add", "add", "sub", "mul", "mulq", "addn", "muln"]
        if self.nonlin:
            ch += ["div", "pow"]
            if self.powq:
                ch += ["powq", "powe"]
            if self.minmax:
                ch += ["min", "max"]
            if self.fns and not any(d):
                ch += ["fn", "fn", "fn"]
        ch += ["sum"]
        if self.spec and len(self.world) < self.max_q + 2:
            ch.append("fold")
        k = self.draw(st.sampled_from(ch))
        if k == "leaf":
            return self.leaf(d)
        if k in ("add", "sub"):
            return [k, self.expr(d, depth - 1), self.expr(d, depth - 1)]
        if k == "sum":
            return ["sum"] + [self.expr(d, depth - 2) for _ in range(self.draw(st.integers(1, 3)))]
        if k == "addn":
            a = self.expr(d, depth - 1)
            n = ["n", self.draw(NUM)]
            o = self.draw(st.sampled_from(["add", "sub"]))
            return [o, a, n] if self.draw(st.booleans()) else [o, n, a]
        if k == "muln":
            a = self.expr(d, depth - 1)
            n = ["n", self.draw(NUM)]
            w = self.draw(st.integers(0, 3))
            if w == 0:
                return ["mul", n, a]
            if w == 1:
                return ["div", a, n]
            return ["mul", a, n]
        if k == "mulq":
            # product with a specified quantity
            d1 = self.draw(st.sampled_from(POOL))
            c = self.new_q(d1, kind="par", spec=True) if len(self.world) < self.max_q + 2 else None
            if c is None or not self.spec:
                return ["mul", self.expr(d, depth - 1), ["n", self.draw(NUM)]]
            a = self.expr(vsub(d, d1), depth - 1)
            return ["mul", a, c] if self.draw(st.booleans()) else ["mul", c, a]
        if k == "fold":
            # arithmetic among numbers only: a specified quantity and a number or another such quantity
            a = self.new_q(d, kind=self.draw(st.sampled_from(["par", "con", "var"])), spec=True)
            if self.draw(st.booleans()):
                n = ["n", self.draw(st.one_of(NUM, st.sampled_from([2, 3, 4, 7])))]
                return [self.draw(st.sampled_from(["div", "div", "mul", "sub", "add"])), a, n]
            if not self.nonlin:
                return [self.draw(st.sampled_from(["sub", "add"])), a, self.leaf(d)]
            o = self.draw(st.sampled_from(["div", "mul"]))
            d1 = self.draw(st.sampled_from(POOL))
            a = self.new_q(vadd(d, d1) if o == "div" else vsub(d, d1), kind="par", spec=True)
            b = self.new_q(d1, kind="par", spec=True, v=self.draw(self.values))
            return self.fix([o, a, b])
        if k == "mul":
            d1 = self.draw(st.sampled_from(POOL))
            return self.fix(["mul", self.expr(d1, depth - 1), self.expr(vsub(d, d1), depth - 1)])
        if k == "div":
            if self.draw(st.integers(0, 4)) == 0:
                b = self.expr(vscale(d, -1), depth - 1)
                return self.fix(["div", ["n", self.draw(NUM)], b]) if abs(self.val(b)) > .1 else self.leaf(d)
            d1 = self.draw(st.sampled_from(POOL))
            a, b = self.expr(vadd(d, d1), depth - 1), self.expr(d1, depth - 1)
            if abs(self.val(b)) < 0.1:
                b = ["add", b, ["n", 2]]
                if abs(self.val(b)) < 0.1:
                    b = self.leaf(d1)
            return self.fix(["div", a, b])
        if k in ("pow", "powq"):
            opts = [2, 3, -1, 2.0, -2] + ([0.5, 1.5, 0.25, 2.25, 1.03125, 0.00390625] if not any(d) else [0.5, 0.25, -0.25])
            p = self.draw(st.sampled_from(opts))
            dd = [x / p for x in d]
            if any(x * p != y for x, y in zip(dd, d)) or any((x * 4) != int(x * 4) for x in dd):
                p, dd = (1 if self.draw(st.booleans()) else 1.0), list(d)
            a = self.expr(dd, depth - 1)
            va = self.val(a)
            if abs(va) < 0.1:
                a = self.leaf(dd)
                va = self.val(a)
            if va < 0 and p != int(p):
                a = ["mul", ["n", -1], a]
                va = -va
            if abs(p) > 1 and abs(va) > 40:
                return self.leaf(d)
            if k == "powq":
                if len(self.world) < self.max_q + 2:
                    e = self.new_q(ZERO, kind=self.draw(st.sampled_from(["par", "con"])), spec=True, v=p)
                    return self.fix(["powq", a, e[1]])
            return self.fix(["pow", a, p])
        if k == "powe":
            return self.power(d, depth)
        if k in ("min", "max"):
            n = self.draw(st.integers(2, 3))
            items = [self.expr(d, depth - 1) for _ in range(n)]
            if self.draw(st.integers(0, 3)) == 0:
                items[self.draw(st.integers(1, n - 1))] = ["n", self.draw(st.one_of(NUM, NUM, st.sampled_from([0, 0.])))]
                if self.draw(st.booleans()):
                    items = self.draw(st.permutations(items))
            return self.fix([k] + items)
        if k == "fn":
            f = self.draw(st.sampled_from(FNS))
            a = self.expr(ZERO, depth - 1)
            v = self.val(a)
            if f in ("Log", "Log10", "Sqrt") and v < 0.05:
                a = ["add", ["fn", "Abs", a], ["n", 0.5]]
            if f == "Exp" and v > 8:
                a = ["fn", "Sin", a] if abs(v) < 500 else self.leaf(ZERO)
            if f in ("Sin", "Cos", "Tan") and abs(v) > 50:
                a = self.leaf(ZERO)
            if f == "Tan" and abs(math.cos(self.val(a))) < 0.1:
                f = "Sin"
            return self.fix(["fn", f, a])
        raise ValueError(k)

    def power(self, d, depth):
        """a power whose exponent is an expression; a base with a dimension needs an exponent of known value"""
        if any(d):
            p = self.draw(st.sampled_from([2, 0.5, 1, -1, 1.5, 4]))
            dd = [x / p for x in d]
            if any(x * p != y for x, y in zip(dd, d)) or any((x * 4) != int(x * 4) for x in dd):
                p, dd = 1, list(d)
            a = self.expr(dd, depth - 1)
            if not 0.1 < self.val(a) < 40 or len(self.world) >= self.max_q + 2:
                return self.leaf(d)
            e = {0: lambda: ["sub", self.new_q(ZERO, "par", True, p + 2), ["n", 2]],
                 1: lambda: ["mul", self.new_q(ZERO, "con", True, p / 2), ["n", 2]],
                 2: lambda: ["div", self.new_q(ZERO, "par", True, p * 4), ["n", 4]],
                 3: lambda: ["mul", self.new_q(ZERO, "par", True, p / 2), self.new_q(ZERO, "con", True, 2)],
                 4: lambda: ["sub", ["n", 3], self.new_q(ZERO, "par", True, 3 - p)]}[self.draw(st.integers(0, 4))]()
            return self.fix(["powe", a, e])
        a, e = self.expr(ZERO, depth - 1), self.expr(ZERO, depth - 1)
        if len(self.world) < self.max_q + 1 and self.draw(st.booleans()):
            # an exponent of known value, with many digits
            e = self.new_q(ZERO, "par", True, self.draw(st.sampled_from([1.03125, 0.40625, -0.00390625, 2.0009765625])))
            e = ["mul", e, ["n", 0.5]] if self.draw(st.booleans()) else e
        if a[0] == "n" or not 0.1 < self.val(a) < 20:
            a = self.new_q(ZERO, v=self.draw(POS)) if len(self.world) < self.max_q + 2 else None
        if a is None or e[0] == "n" or abs(self.val(e)) > 4:
            return self.leaf(d)
        return self.fix(["powe", a, e])

    def fix(self, ast):
        """keep magnitudes moderate"""
        try:
            v, e = ev(ast, self.vals())
        except OutOfDomain:
            v, e = float("inf"), 1
        if abs(v) < BIG and e < 1e-9 * (1 + abs(v)):
            return ast
        d = dim(ast, self.world)
        return self.leaf(d or ZERO)

    def derivative(self, d_over=None):
        """a derivative leaf: returns ["diff", i, j]"""
        t = self.new_q([0, 0, 1, 0, 0, 0, 0], kind="var", spec=False)
        y = self.new_q(d_over or ZERO, kind="var", spec=False)
        self.world[y[1]]["dom"] = t[1]
        return ["diff", y[1], t[1]]


@st.composite
def expr_case(draw, max_depth=4, want_dim=None, **kw):
    b = Builder(draw, **kw)
    d = want_dim if want_dim is not None else draw(st.sampled_from(POOL))
    ast = b.expr(list(d), draw(st.integers(1, max_depth)))
    if ast[0] == "n":
        ast = b.leaf(d)
    return {"w": b.world, "e": ast}


# ------------------------------------------------------------------ building with the code under test
def sloth():
    """modules of the code under test, imported lazily (after bootstrap)"""
    global _S
    try:
        return _S
    except NameError:
        pass
    import importlib
    import types
    S = types.SimpleNamespace()
    for n in ("unit", "quantity", "variable", "parameter", "constant", "equation", "equation_operators", "domain",
              "error_definitions", "expression_evaluation", "template_units", "equation_block"):
        setattr(S, n, importlib.import_module("src.sloth.core." + n))
    S.Unit = S.unit.Unit
    S.Variable = S.variable.Variable
    S.Parameter = S.parameter.Parameter
    S.Constant = S.constant.Constant
    S.Equation = S.equation.Equation
    S.Domain = S.domain.Domain
    S.err = S.error_definitions
    S.ops = S.equation_operators
    _S = S
    return S


def mk_unit(d):
    return sloth().Unit("u", {k: x for k, x in zip(DIMS, d) if x != 0})


def unit_vec(u):
    return [float(u.dimension[k]) for k in DIMS]


def mk_quantity(q):
    S = sloth()
    cls = {"var": S.Variable, "par": S.Parameter, "con": S.Constant}[q["k"]]
    o = cls(q["n"], mk_unit(q["d"]), "quantity", value=q["v"]) if not q["s"] else cls(q["n"], mk_unit(q["d"]), "quantity")
    if q["s"]:
        o.setValue(q["v"])
    return o


def mk_world(world):
    objs = [mk_quantity(q) for q in world]
    S = sloth()
    for q, o in zip(world, objs):
        if q.get("dom") is not None:
            o.distributeOnDomain(S.Domain("dom", objs[q["dom"]].units, objs[q["dom"]], "domain"))
    return objs


def build(ast, objs):
    """the expression, built with the operators and functions of the code under test"""
    O = sloth().ops
    op = ast[0]
    if op == "q":
        return objs[ast[1]]()
    if op == "n":
        return ast[1]
    if op == "diff":
        return objs[ast[1]].Diff(objs[ast[2]])
    if op in ("min", "max"):
        return (O.Min if op == "min" else O.Max)(*[build(x, objs) for x in ast[1:]])
    if op == "fn":
        return getattr(O, ast[1])(build(ast[2], objs))
    if op == "sum":
        return sum([build(x, objs) for x in ast[1:]])
    if op == "powq":
        return build(ast[1], objs) ** objs[ast[2]]()
    if op == "pow":
        return build(ast[1], objs) ** ast[2]
    if op == "powe":
        return build(ast[1], objs) ** build(ast[2], objs)
    a, b = build(ast[1], objs), build(ast[2], objs)
    if op == "add":
        return a + b
    if op == "sub":
        return a - b
    if op == "mul":
        return a * b
    return a / b


def show(ast, world):
    op = ast[0]
    if op == "q":
        return world[ast[1]]["n"] + ("*" if world[ast[1]]["s"] else "")
    if op == "n":
        return repr(ast[1])
    if op == "diff":
        return "d%s/d%s" % (world[ast[1]]["n"], world[ast[2]]["n"])
    if op in ("min", "max", "sum"):
        return op + "(" + ", ".join(show(x, world) for x in ast[1:]) + ")"
    if op == "fn":
        return ast[1] + "(" + show(ast[2], world) + ")"
    if op == "powq":
        return "(" + show(ast[1], world) + ")**" + world[ast[2]]["n"]
    if op == "pow":
        return "(" + show(ast[1], world) + ")**" + repr(ast[2])
    if op == "powe":
        return "(" + show(ast[1], world) + ")**(" + show(ast[2], world) + ")"
    return "(" + show(ast[1], world) + {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op] + show(ast[2], world) + ")"
