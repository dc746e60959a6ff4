"""C23 the unit operations state their mass, molar, mechanical and energy balances."""
import importlib

import numpy as np
import thermo
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods

S = sloth()
M = mods()
L = importlib.import_module("src.sloth.unit_op_library")
PP = importlib.import_module("src.sloth.core.property_package").PropertyPackage
OPS = importlib.import_module("src.sloth.core.equation_operators")
SPECIES = ["water", "toluene", "hexane", "ethanol", "benzene", "CO2", "acetone"]
UNITS = ["Mixer", "Splitter", "Valve", "SimplePump", "Heater", "Cooler"]
STREAMS = ["HomogeneousMaterialStream", "MaterialStream", "MultiphasicMaterialStream"]
_CHEM = {}


def chem(name):
    """properties of a species at the reference state, straight from thermo"""
    if name not in _CHEM:
        _CHEM[name] = thermo.chemical.Chemical(name, 298.15, 101325)
    return _CHEM[name]


def package(names):
    # (the species are those named: three of them may make up two phases)
    n = 2 if len(names) == 3 and names[0] < names[1] else len(names)
    return PP(phases=n, phase_names=list(names))


pos = lambda a, b: st.integers(1, 64).map(lambda k: a + (b - a) * k / 64.)


@st.composite
def fractions(draw, n):
    w = [draw(st.integers(1, 8)) for _ in range(n)]
    return [x / float(sum(w)) for x in w]


@st.composite
def state(draw, names):
    n = len(names)
    s = {"ndot": draw(pos(1, 200)), "H": draw(pos(-4000, 9000)), "P": draw(pos(5e4, 9e5)), "T": draw(pos(260, 500))}
    z = draw(fractions(n)) if n > 1 else [1.0]
    mm = sum(a * chem(x).MW * 1e-3 for a, x in zip(z, names)) if names else 0.018
    s["mdot"] = s["ndot"] * mm
    for a, x in zip(z, names):
        s["z_" + x] = a
        s["w_" + x] = a * chem(x).MW * 1e-3 / mm
    return s


@st.composite
def unit(draw, names):
    k = draw(st.sampled_from(UNITS if names else ["Mixer", "Splitter", "SimplePump"]))
    u = {"k": k}
    if k not in ("Mixer", "Splitter"):
        u["Delta_P"] = draw(pos(0, 4e4))
    if k == "Valve":
        u["perc_open"] = draw(st.integers(1, 8)) / 8.
    if k in ("Heater", "Cooler"):
        u["Q"] = draw(pos(-50000, 50000))
    return u


def make_unit(u, name, pp):
    how = u.get("how", "set")
    par = {k: v for k, v in u.items() if k in ("Delta_P", "perc_open", "Q")}
    cls = getattr(L, u["k"])
    if how == "subclass":
        class Sub_(cls):
            def __init__(self, name, description="", property_package=None):
                super().__init__(name, description, property_package)
                for k, v in par.items():
                    getattr(self, k).setValue(v)
        m = Sub_(name, "", pp)
    else:
        m = cls(name, "", pp)
        for k, v in par.items():
            getattr(m, k).setValue(v)
    m()
    return m


def out_state(u, s, names):
    """the independent balance over one unit"""
    o = dict(s)
    k = u["k"]
    if k in ("Valve", "Heater", "Cooler"):
        o["P"] = s["P"] - u["Delta_P"]
    if k == "SimplePump":
        o["P"] = s["P"] + u["Delta_P"]
    if k == "Valve":
        rho = sum(s["w_" + x] * chem(x).rho for x in names) if len(names) > 1 else chem(names[0]).rho
        o["Qdot"] = u["perc_open"] * s["mdot"] / rho
    if k in ("Heater", "Cooler"):
        cp = sum(s["w_" + x] * chem(x).Cp for x in names) if len(names) > 1 else chem(names[0]).Cp
        o["H"] = (s["ndot"] * s["H"] + u["Q"]) / s["ndot"]
        o["T"] = s["T"] + u["Q"] / (s["mdot"] * cp)
    return o


def scale(k):
    return {"P": 1e5, "T": 300., "H": 1e3}.get(k, 1.)


def residuals(m, vals):
    out = []
    for e in m.equations.values():
        need = {k: vals[k] for k, o in e.objects_declared.items() if not o.is_specified}
        out.append(float(e.eval(need)))
    return np.array(out)


# ---- one unit: its equations are the balances -------------------------------------------
@st.composite
def strategy_unit(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4, 5]))
    names = list(draw(st.permutations(SPECIES)))[:n]
    u = draw(unit(names))
    u["how"] = draw(st.sampled_from(["set", "subclass"]))
    return {"names": names, "u": u, "s": draw(state(names)), "n": draw(st.sampled_from(["U", "V0", "P_in", "mix_1", "P-101", "mix 2"])), "twice": draw(st.booleans())}


def body_unit(case, rec):
    names, u, s, nm = case["names"], case["u"], case["s"], case["n"]
    pp = package(names) if names else None
    m = make_unit(u, nm, pp)
    if case["twice"]:
        m()
    o = out_state(u, s, names)
    base = ["ndot", "mdot", "H", "P", "T"]
    fr = ["%s_%s" % (a, x) for a in "zw" for x in names] if len(names) > 1 else []
    ins = {k + "_in_" + nm: s[k] for k in base + fr}
    outs = {k + "_out_" + nm: o[k] for k in base + fr}
    if u["k"] == "Valve":
        outs["Qdot_out_" + nm] = o["Qdot"]
    want = set(ins) | set(outs)
    check(set(m.variables) == want, "variables of a %s: %s, expected %s", u["k"], sorted(m.variables), sorted(want))
    for t, d in (("input", ins), ("output", outs)):
        got = [v.name for v in m.exposed_vars[t]]
        check(sorted(got) == sorted(d), "variables a %s exposes as %s: %s, expected %s", u["k"], t, sorted(got), sorted(d))
    vals = dict(ins)
    vals.update(outs)
    for e in m.equations.values():
        bad = [k for k, x in e.objects_declared.items() if not x.is_specified and k not in vals]
        check(not bad, "equation %s of a %s is over %s", e.name, u["k"], bad)
    mag = np.array([residuals(m, {k: v * (1 + d) for k, v in vals.items()}) for d in (1e-3, -1e-3)])
    # a term scale per equation: the largest product of its values
    r0 = residuals(m, vals)
    unk = list(outs)
    if u["k"] in ("Mixer", "Splitter") and len(names) > 1:
        # the fractions of the last component at the inlet follow from the others
        unk += ["%s_%s_in_%s" % (a, names[-1], nm) for a in "zw"]
    check(len(m.equations) == len(unk), "a %s with %d components has %d equations for %d unknown outputs", u["k"], len(names), len(m.equations), len(unk))
    J = np.zeros((len(r0), len(unk)))
    for j, k in enumerate(unk):
        for sg in (1, -1):
            v = dict(vals)
            h = 1e-4 * (abs(v[k]) + 1e-2)
            v[k] += sg * h
            J[:, j] += sg * residuals(m, v) / (2 * h)
    row = np.abs(J) @ np.array([abs(vals[k]) for k in unk]) + 1e-12
    for e, r, sc in zip(m.equations.values(), r0, row):
        check(abs(r) <= 1e-9 * sc + 1e-9, "equation %s of a %s does not hold at its balance: residual %r (in %s, out %s)", e.name, u["k"], r, ins, outs)
    Js = J * np.array([abs(vals[k]) + 1e-3 * scale(k[0]) for k in unk]) / row[:, None]
    sv = np.linalg.svd(Js, compute_uv=False)
    check(sv[-1] > 1e-7, "the equations of a %s do not determine its outlet (singular value %g)", u["k"], sv[-1])
    rec.label(u["k"], "components:%d" % len(names))
    rec.nt(bool(names))


# ---- streams ---------------------------------------------------------------------------
@st.composite
def strategy_stream(draw):
    k = draw(st.sampled_from(STREAMS))
    n = 1 if k != "MultiphasicMaterialStream" else draw(st.integers(1, 3))
    names = list(draw(st.permutations(SPECIES)))[:n]
    s = draw(state(names))
    return {"k": k, "names": names, "s": s, "given": draw(st.sampled_from(["mdot", "ndot", "both", "none"])),
            "fr": draw(st.sampled_from(["z", "w", "zw"])), "TP": draw(st.sampled_from(["T", "P", "TP", ""])),
            "again": draw(st.booleans()), "change": draw(st.one_of(st.none(), st.fixed_dictionaries({
                "fr": st.booleans(), "s": state(names), "flux": st.lists(st.sampled_from([0.5, 3.0, 1.0]), min_size=1, max_size=2), "both": st.booleans()})))}


def make_stream(k, name, names, s, given, fr="zw", TP="TP", pp=None):
    pp = pp or package(names)
    m = getattr(L, k)(name, "", pp)
    for x in ("mdot", "ndot"):
        if given in (x, "both"):
            getattr(m, x).setValue(s[x])
    for x in "TP":
        if x in TP:
            getattr(m, x).setValue(s[x])
    m.H.setValue(s["H"])
    if k == "MultiphasicMaterialStream":
        for a in fr:
            for x in names:
                getattr(m, a + "_" + x).setValue(s[a + "_" + x])
    return m, pp


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * (abs(a) + abs(b)) + 1e-300


def body_stream(case, rec):
    k, names, s = case["k"], case["names"], case["s"]
    m, pp = make_stream(k, "S1", names, s, case["given"], case["fr"], case["TP"])
    m()
    if case["given"] == "none":
        check(m.mdot.is_specified is False and m.ndot.is_specified is False, "a stream without a flux got one: %r, %r", m.mdot.value, m.ndot.value)
    else:
        for x in ("mdot", "ndot"):
            o = getattr(m, x)
            check(o.is_specified is True and near(o.value, s[x]), "%s of a %s of %s given its %s is %r, expected %r", x, k, names, case["given"], o.value, s[x])
    for x in "TP":
        o = getattr(m, x)
        check(o.is_specified is (x in case["TP"]), "%s of the stream is specified=%r", x, o.is_specified)
        if x in case["TP"]:
            check(o.value == s[x], "%s of the stream is %r, it was given %r", x, o.value, s[x])
    T = s["T"] if "T" in case["TP"] else 298.15
    P = s["P"] if "P" in case["TP"] else 101325
    for x in names:
        c = pp[x]
        check(c.T == T and c.P == P, "%s of the package of a stream at (%g, %g) is at (%r, %r)", x, T, P, c.T, c.P)
        ref = chem(x).__class__(x, T, P)
        for a in ("rho", "Cp", "H"):
            va, vb = getattr(c, a), getattr(ref, a)
            check((va is None and vb is None) or near(va, vb, 1e-7), "%s of %s at (%g, %g) is %r, expected %r", a, x, T, P, va, vb)
    want = {"mdot_S1", "ndot_S1", "P_S1", "H_S1", "T_S1"}
    if k == "MultiphasicMaterialStream":
        want |= {"%s_%s_S1" % (a, x) for a in "zw" for x in names}
    check(set(m.parameters) == want, "parameters of a %s: %s, expected %s", k, sorted(m.parameters), sorted(want))
    check(not m.variables and not m.equations, "a stream declared variables or equations")
    if case["again"]:
        m()
        for x in ("mdot", "ndot"):
            o = getattr(m, x)
            check(not o.is_specified or near(o.value, s[x]), "%s changed to %r when the stream was declared again", x, o.value)
    if case["change"] is not None and case["given"] in ("mdot", "ndot"):
        # the user gives another flux, perhaps other fractions, and the stream is declared again
        s2 = dict(s)
        if case["change"]["fr"] and k == "MultiphasicMaterialStream":
            s2 = dict(case["change"]["s"])
            for a in case["fr"]:
                for x in names:
                    getattr(m, a + "_" + x).setValue(s2[a + "_" + x])
        for j in case["change"]["flux"]:
            c = s2["ndot"] / s2["mdot"]
            s2["mdot"] = s["mdot"] * j
            s2["ndot"] = s2["mdot"] * c
            if case["given"] == "ndot":
                s2["ndot"] = s["ndot"] * j
                s2["mdot"] = s2["ndot"] / c
            getattr(m, case["given"]).setValue(s2[case["given"]])
            m()
            for x in ("mdot", "ndot"):
                o = getattr(m, x)
                check(o.is_specified is True and near(o.value, s2[x]), "%s of a %s of %s, given another %s and declared again, is %r, expected %r", x, k, names, case["given"], o.value, s2[x])
        if case["change"]["both"]:
            # a flux given by the user is not derived any more
            other = "ndot" if case["given"] == "mdot" else "mdot"
            getattr(m, other).setValue(s2[other] * 1.25)
            m()
            m()
            check(getattr(m, other).value == s2[other] * 1.25 and near(getattr(m, case["given"]).value, s2[case["given"]]), "a flux given by the user was changed to %r", getattr(m, other).value)
        rec.label("changed")
    rec.label(k, "given:" + case["given"], "components:%d" % len(names))
    rec.nt(case["given"] in ("mdot", "ndot"))


# ---- flowsheets ------------------------------------------------------------------------
@st.composite
def strategy_train(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    names = list(draw(st.permutations(SPECIES)))[:n]
    ns = draw(st.integers(1, 3))
    case = {"names": names, "streams": [], "units": [], "share": draw(st.booleans())}
    for i in range(ns):
        case["streams"].append({"s": draw(state(names)), "k": draw(st.sampled_from(STREAMS if n == 1 else STREAMS[2:])), "given": draw(st.sampled_from(["mdot", "ndot", "both"]))})
    for i in range(draw(st.integers(1, 3))):
        u = draw(unit(names))
        u["how"] = draw(st.sampled_from(["set", "subclass"]))
        case["units"].append(u)
    case["rev"] = draw(st.booleans())
    case["early"] = draw(st.booleans())
    case["noise"] = [draw(st.sampled_from([1.0, 0.9, 1.1])) for _ in range(6)]
    # a second feed joins a later mixer
    case["late"] = None
    mixers = [i for i, u in enumerate(case["units"]) if i > 0 and u["k"] in ("Mixer", "Splitter")]
    if mixers and draw(st.booleans()):
        case["late"] = [draw(st.sampled_from(mixers)), {"s": draw(state(names)), "k": STREAMS[2], "given": "ndot"}]
    return case


def merge(states, names):
    o = {"ndot": sum(s["ndot"] for s in states), "mdot": sum(s["mdot"] for s in states), "P": min(s["P"] for s in states), "T": min(s["T"] for s in states)}
    o["H"] = sum(s["ndot"] * s["H"] for s in states) / o["ndot"]
    for x in names:
        o["z_" + x] = sum(s["z_" + x] * s["ndot"] for s in states) / o["ndot"]
        o["w_" + x] = sum(s["w_" + x] * s["mdot"] for s in states) / o["mdot"]
    return o


def balance(case, feeds):
    """the states along the train for given states of the feeds"""
    names, sol = case["names"], {}
    cur = None
    n0 = len(case["streams"])
    base = ["ndot", "mdot", "H", "P", "T"]
    for i, u in enumerate(case["units"]):
        if i == 0:
            s = merge(feeds[:n0], names)
        elif case["late"] and case["late"][0] == i:
            s = merge([cur, feeds[-1]], names)
        else:
            s = cur
        cur = out_state(u, s, names)
        for k in base + (["%s_%s" % (a, x) for a in "zw" for x in names] if len(names) > 1 else []):
            sol["%s_in_U%d" % (k, i)] = s[k]
            sol["%s_out_U%d" % (k, i)] = cur[k]
        if u["k"] == "Valve":
            sol["Qdot_out_U%d" % i] = cur["Qdot"]
    return sol


def body_train(case, rec):
    names = case["names"]
    multi = len(names) > 1
    ident = names[:-1] if multi else []
    shared = package(names)
    pk = (lambda: shared) if case["share"] else (lambda: package(names))
    prob = M.Problem("plant", "")
    streams, units = [], []
    # feeds may share one package; each unit has its own, so its properties are those of the reference state
    for i, u in enumerate(case["units"]):
        units.append(make_unit(u, "U%d" % i, package(names)))
    feeds = [dict(f) for f in case["streams"]] + ([case["late"][1]] if case["late"] else [])
    for i, f in enumerate(feeds):
        m, _ = make_stream(f["k"], "S%d" % i, names, f["s"], f["given"], pp=pk())
        m()
        streams.append(m)
    models = streams + units
    if case["rev"]:
        models = models[::-1]
    prob.addModels(models)
    base = ["ndot", "mdot", "H", "P", "T"]

    def feed(ms, u):
        """several sources into one unit; sources are (model, suffix) pairs"""
        g = lambda k: [getattr(m, k + sfx)() for m, sfx in ms]
        tot = lambda xs: sum(xs[1:], xs[0])
        mn = lambda xs: xs[0] if len(xs) == 1 else OPS.Min(*xs)
        prob.createConnection("", u, mn(g("T")), u.T_in())
        prob.createConnection("", u, mn(g("P")), u.P_in())
        prob.createConnection("", u, tot(g("mdot")), u.mdot_in())
        prob.createConnection("", u, tot(g("ndot")), u.ndot_in())
        prob.createConnection("", u, tot([a * b for a, b in zip(g("ndot"), g("H"))]), u.ndot_in() * u.H_in())
        for x in (names if multi and not isinstance(u, L.Mixer) else ident):
            for a, fl in (("z", "ndot"), ("w", "mdot")):
                prob.createConnection("", u, tot([p * q for p, q in zip(g(a + "_" + x), g(fl))]), getattr(u, "%s_%s_in" % (a, x))() * getattr(u, fl + "_in")())

    def has_fr(m):
        return not multi or hasattr(m, "z_" + names[0]) or hasattr(m, "z_%s_out" % names[0])

    cur = None
    n0 = len(case["streams"])
    for i, (u, m) in enumerate(zip(case["units"], units)):
        if i == 0:
            feed([(x, "") for x in streams[:n0]], m)
        elif case["late"] and case["late"][0] == i:
            feed([(units[i - 1], "_out"), (streams[-1], "")], m)
        else:
            for k in base + ["%s_%s" % (a, x) for a in "zw" for x in (names if multi and not isinstance(m, L.Mixer) else ident)]:
                prob.createConnection(units[i - 1], m, getattr(units[i - 1], k + "_out"), getattr(m, k + "_in"))

    def run(what):
        sol = balance(case, [f["s"] for f in feeds])
        prob.resolve()
        sim = M.Simulation("sim", "")
        sim.setProblem(prob)
        kw = {}
        if prob._getProblemType() == "nonlinear":
            kw["initial_guess"] = {k: v * case["noise"][j % 6] for j, (k, v) in enumerate(sol.items())}
        sim.setConfigurations(**kw)
        sim.runSimulation()
        res = sim.getResults(return_type="dict")
        check(set(res) == set(sol), "%s has unknowns %s, expected %s", what, sorted(set(res) - set(sol)), sorted(set(sol) - set(res)))
        for k in sol:
            check(near(float(res[k]), sol[k], 1e-6) or abs(float(res[k]) - sol[k]) < 1e-7 * scale(k.split("_")[0]) * 10,
                  "%s of %s %s is %r, the balance gives %r", k, what, [u["k"] for u in case["units"]], float(res[k]), sol[k])
    run("the flowsheet")
    rec.label(*[u["k"] for u in case["units"]])
    rec.label("components:%d" % len(names), "feeds:%d" % len(feeds))
    rec.nt(len(case["units"]) >= 2 or len(feeds) >= 2)


# ---- holdups ---------------------------------------------------------------------------
@st.composite
def strategy_tank(draw):
    name = draw(st.sampled_from(SPECIES))
    return {"k": draw(st.sampled_from(["Tank", "Fermenter"])), "x": name, "in": draw(state([name])), "out": draw(state([name])), "Q": draw(st.one_of(st.none(), pos(-5000, 5000))),
            "area": draw(pos(0.125, 8)), "n": draw(st.sampled_from(["T0", "in", "tank", "tank 2"])), "w": draw(st.permutations(range(5)))}


def body_tank(case, rec):
    import sympy as sp
    nm, x, a, b = case["n"], case["x"], case["in"], case["out"]
    t = getattr(L, case["k"])(nm, property_package=package([x]))
    t.area_sec.setValue(case["area"])
    if case["Q"] is not None:
        t.Q.setValue(case["Q"])
    Q = case["Q"] or 0.
    t.Q.setValue(Q)
    t()
    rates = {"N": a["ndot"] - b["ndot"], "M": a["mdot"] - b["mdot"], "E": a["ndot"] * a["H"] - b["ndot"] * b["H"] + Q,
             "level": (a["mdot"] - b["mdot"]) / (chem(x).rho * case["area"])}
    vals = {k + "_in_" + nm: a[k] for k in ("ndot", "mdot", "H")}
    vals.update({k + "_out_" + nm: b[k] for k in ("ndot", "mdot", "H")})
    vals.update({"P_In_" + nm: a["P"], "P_Out_" + nm: a["P"]})
    check(len(t.equations) == 5, "a tank has equations %s", sorted(t.equations))
    seen = []

    def value(so, wrong=None):
        ders = list(sp.sympify(so).atoms(sp.Derivative))
        check(len(ders) <= 1, "derivatives %s in one balance", ders)
        d = {}
        if ders:
            h = ders[0].args[0].func.__name__ if ders[0].args[0].args else str(ders[0].args[0])
            h = h[:-len("_" + nm)]
            d = {ders[0]: sp.Float(rates[h] + (wrong or 0.))}
            seen.append(h)
        return float(sp.sympify(so).xreplace(d).subs({sp.Symbol(k): v for k, v in vals.items()}).evalf()), bool(ders)
    for e in t.equations.values():
        used = set(e.objects_declared) - set(k for k, o in e.objects_declared.items() if o.is_specified)
        e._convertToResidualForm()
        so = e.equation_expression.symbolic_object
        r, dyn = value(so)
        sc = 1e-9 * (1 + max(abs(v) for k, v in list(vals.items()) if k in used) * (max(a["ndot"], b["ndot"]) if "E_" + nm in used else 1) + abs(Q)) if used & set(vals) else 1e-9
        check(abs(r) <= sc, "balance %s of a tank leaves %r (in %s, out %s)", e.name, r, a, b)
        if dyn:
            r2, _ = value(so, 1.0)
            check(abs(r2 - r) > 0.5 * min(1, 1), "balance %s of a tank does not fix its derivative", e.name)
    check(set(seen) == set(rates), "holdups with a balance: %s", sorted(set(seen)))
    # pressures must be equal
    vals["P_Out_" + nm] = a["P"] + 1000.
    check(any(abs(value(e.equation_expression.symbolic_object)[0]) > 500 for e in t.equations.values() if not set(e.objects_declared) & {"N_" + nm, "M_" + nm, "E_" + nm, "level_" + nm}),
          "a tank accepts different pressures")
    rec.label(case["k"], "heated" if Q else "adiabatic")
    rec.nt(bool(Q))


# ---- models with inlet streams ------------------------------------------------------------
@st.composite
def strategy_ports(draw):
    n = draw(st.integers(1, 4))
    ports = draw(st.lists(st.sampled_from(["in", "L", "V"]), min_size=n, max_size=n))
    return {"s": [draw(state(["water"])) for _ in range(n)], "ports": ports, "k": [draw(st.sampled_from(STREAMS[:2])) for _ in range(n)], "cls": draw(st.sampled_from(["Model", "SimplePump"])),
            "aslist": draw(st.booleans()), "own": draw(st.booleans()), "again": draw(st.booleans()),
            "f": draw(st.one_of(st.none(), st.lists(st.sampled_from([0.75, 1.25, 1.0, 1.1]), min_size=n, max_size=n)))}


def body_ports(case, rec):
    n = len(case["s"])
    streams = []
    for i in range(n):
        m, _ = make_stream(case["k"][i], "S%d" % i, ["water"], case["s"][i], "mdot")
        m()
        streams.append(m)

    class User(M.Model):
        def __init__(self, name):
            super().__init__(name, "")
            if case["own"]:
                self.P_in = self.createVariable("P_in", L.Pa, "", is_exposed=True, type="input")

        def DeclareVariables(self):
            self.P2 = self.createVariable("P2", L.Pa, "")
            self.F = self.createVariable("F", L.kg / L.s, "")
            self.N = self.createVariable("N", L.mol / L.s, "")

        def DeclareEquations(self):
            self.createEquation("p2", "", self.P2() - 2 * self.P_in())
            self.createEquation("f", "", self.F() - sum((s.mdot() for s in self._inlets[1:]), self._inlets[0].mdot()))
            self.createEquation("n", "", self.N() - sum((s.ndot() for s in self._inlets[1:]), self._inlets[0].ndot()))
    m = User("U")
    other = User("W")
    by = {}
    for p, s in zip(case["ports"], streams):
        by.setdefault(p, []).append(s)
    for p, ss in by.items():
        if case["aslist"] or p == "in":
            m._setInlets(list(ss), p)
        else:
            for s in ss:
                m._setInlets(s, p)
    check({p: [x.name for x in v] for p, v in m.ports["inlets"].items()} == {p: [x.name for x in v] for p, v in by.items()}, "the inlets by port are %s, expected %s",
          {p: [x.name for x in v] for p, v in m.ports["inlets"].items()}, {p: [x.name for x in v] for p, v in by.items()})
    check(sorted(x.name for x in m._inlets) == sorted(x.name for x in streams), "the inlets of the model are %s", [x.name for x in m._inlets])
    check(not other.ports["inlets"] and not other._inlets, "another model got the inlets")
    m()
    if case["again"]:
        m()
    prob = M.Problem("p", "")
    prob.addModels(m)

    def run(what, ss):
        Ps, Ts = [s["P"] for s in ss], [s["T"] for s in ss]
        prob.resolve()
        sim = M.Simulation("s", "")
        sim.setProblem(prob)
        want = {"P_in_U": min(Ps), "T_in_U": min(Ts), "P2_U": 2 * min(Ps), "F_U": sum(s["mdot"] for s in ss), "N_U": sum(s["ndot"] for s in ss)}
        sim.setConfigurations(initial_guess={k: 1.1 * v for k, v in want.items()})
        sim.runSimulation()
        r = sim.getResults(return_type="dict")
        check(set(r) == set(want), "%s has unknowns %s, expected %s", what, sorted(r), sorted(want))
        for k in want:
            check(near(float(r[k]), want[k], 1e-7), "%s of %s at P=%s T=%s is %r, expected %r", k, what, Ps, Ts, float(r[k]), want[k])
        for s, d in zip(streams, ss):
            check(s.P.value == d["P"] and s.T.value == d["T"] and s.P.name == "P_" + s.name, "an inlet stream was changed")
        for t in ("input", "output"):
            names = [v.name for v in m.exposed_vars[t]]
            check(len(names) == len(set(names)), "%s exposes %s", what, names)
    run("the model with inlets", case["s"])
    if case["f"]:
        # the streams as the user gives them later
        ss = [dict(s) for s in case["s"]]
        for s, f, o in zip(ss, case["f"], streams):
            for x in ("P", "T", "mdot", "ndot"):
                s[x] *= f
            for x in ("P", "T", "mdot"):
                getattr(o, x).setValue(s[x])
            o()
        run("the model with other inlets", ss)
        rec.label("other_inlets")
    rec.label("inlets:%d" % n, "ports:%d" % len(by))
    rec.nt(n >= 2)


def body_flash(case, rec):
    """a flash unit can be created and declared"""
    m = getattr(L, case["k"])("F", "", package(case["sp"]))
    try:
        m()
    except (NameError, AttributeError) as e:
        raise Violation("%s of %s cannot be declared: %r" % (case["k"], case["sp"], e))


def body_species(case, rec):
    """a unit or stream of species whose names are no identifiers can be declared"""
    m = getattr(L, case["k"])("F", "", property_package=package(case["sp"]))
    try:
        m()
    except SyntaxError as e:
        raise Violation("%s of %s cannot be declared: %r" % (case["k"], case["sp"], e))


SPECIES_CASES = [{"k": k, "sp": sp} for k in ["MultiphasicMaterialStream"] + UNITS for sp in (["carbon dioxide", "water"], ["1-propanol", "water"])]


SUBS = [
    Sub("unit", strategy_unit, body_unit, 300, 3000, "one unit operation for 0 to 3 components, set directly or by a subclass: the residuals vanish at the independent balance, "
        "determine every outlet and the variables are exposed as documented; non-trivial: it has a property package", shards=5),
    Sub("stream", strategy_stream, body_stream, 200, 2000, "streams given mass or molar flux, fractions, T and P: the other flux and the state of the package; "
        "non-trivial: one flux given", shards=3),
    Sub("tank", strategy_tank, body_tank, 60, 600, "the holdup balances of a Tank or Fermenter with their derivatives given; non-trivial: heated", shards=2),
    Sub("ports", strategy_ports, body_ports, 60, 600, "a model with inlet streams on ports, simulated: totalized pressure and temperature; non-trivial: two inlets", shards=2),
    Sub("flowsheet", strategy_train, body_train, 60, 800, "feeds into a train of connected units, simulated, against sequential balances; non-trivial: two units or two feeds", shards=6),
    Sub("flash", lambda: st.sampled_from([{"k": k, "sp": sp} for k in ("Flash_Dynamic", "Flash_SteadyState") for sp in (["water"], ["water", "ethanol"])]),
        body_flash, 0, 0, "(replay of the known finding: flash units)"),
    Sub("species", lambda: st.sampled_from(SPECIES_CASES), body_species, 0, 0, "(replay of the known finding: names of species that are no identifiers)"),
]
ASSUMPTIONS = ["thermo supplies the properties of the species", "initial guesses within 10 % of the solution for nonlinear flowsheets"]
