"""C24 property packages: combination, state and mixtures."""
import importlib
import math

from hypothesis import strategies as st

from ..runner import Sub, check, Violation, expect_raises

PP = importlib.import_module("src.sloth.core.property_package")
import thermo  # noqa

NAMES = ["water", "ethanol", "nitrogen", "oxygen", "methane", "toluene", "acetone", "carbon dioxide", "methanol", "benzene", "ethylbenzene", "ethane"]
RELATED = [["methanol", "ethanol"], ["ethane", "methane"], ["ethylbenzene", "benzene"], ["methane", "ethane", "methanol"], ["ethanol", "methanol"]]
ATTR = ["rho", "Cp", "MW", "mu", "phase", "Psat", "Hvap", "k"]
_fresh = {}


def fresh(n, T, P):
    k = (n, T, P)
    if k not in _fresh:
        _fresh[k] = thermo.chemical.Chemical(n, T, P)
    return _fresh[k]


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-9 * abs(b)
    return a == b


def state_is(c, n, T, P, what):
    f = fresh(n, T, P)
    check(same(c.T, T) and same(c.P, P), "%s: %s is at T=%r P=%r instead of T=%r P=%r", what, n, c.T, c.P, T, P)
    for a in ATTR:
        check(same(getattr(c, a), getattr(f, a)), "%s: %s of %s is %r, a substance at T=%r P=%r has %r", what, a, n, getattr(c, a), T, P, getattr(f, a))


TS = st.sampled_from([280.0, 298.15, 320.0, 350.0, 400.0])
PS = st.sampled_from([5e4, 101325.0, 3e5])


@st.composite
def strategy(draw):
    packs = []
    for _ in range(draw(st.integers(1, 4))):
        n = draw(st.integers(1, 3))
        packs.append(list(draw(st.permutations(NAMES)))[:n])
    if draw(st.booleans()):
        # names inside other names
        r = draw(st.sampled_from(RELATED))
        packs = [r[:1], r[1:]] + packs[2:]
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["add", "add", "add", "calc", "calc", "bad"]))
        a, b = draw(st.integers(0, 7)), draw(st.integers(0, 7))
        ops.append([k, a, b, draw(TS), draw(PS)])
    return {"packs": packs, "ops": ops, "phases": draw(st.booleans())}


def body(case, rec):
    # history over packages; a model keeps the names and the state of every species of every package
    packs, model = [], []
    for p in case["packs"]:
        # the number of phases may be left at its default
        packs.append(PP.PropertyPackage(len(p), list(p), [1.0 / len(p)] * len(p)) if case["phases"] else PP.PropertyPackage(phase_names=list(p)))
        model.append({"names": list(p), "state": {n: (298.15, 101325) for n in p}})
    nadd = shared = 0
    for k, a, b, T, P in case["ops"]:
        a, b = a % len(packs), b % len(packs)
        if k == "add" and a != b:
            r = packs[a] + packs[b]
            new = [n for n in model[b]["names"] if n not in model[a]["names"]]
            shared += len(new) != len(model[b]["names"])
            m = {"names": model[a]["names"] + new, "state": {**{n: model[b]["state"][n] for n in new}, **model[a]["state"]}}
            # the result may be the left operand itself or a new package
            if r is packs[a]:
                model[a] = m
            else:
                check(all(r is not x for x in packs[:b] + packs[b + 1:]) and r is not packs[b], "the sum of two packages is another package")
                if list(packs[a].phase_names) == m["names"]:
                    model[a] = {"names": list(m["names"]), "state": dict(m["state"])}
                packs.append(r)
                model.append(m)
            check(r.number_of_phases == len(m["names"]), "a package of %d species has number_of_phases %d", len(m["names"]), r.number_of_phases)
            nadd += 1
        elif k == "calc":
            packs[a].calculate(T, P)
            model[a]["state"] = {n: (T, P) for n in model[a]["names"]}
        elif k == "bad":
            expect_raises(Exception, lambda: packs[a] + ["water", 1, None][b % 3], "adding something else to a package")
        for i, (p, m) in enumerate(zip(packs, model)):
            what = "package %s after %s" % (m["names"], k)
            check(list(p.phase_names) == m["names"], "%s: the species are %s", what, p.phase_names)
            check(list(p.phases) == m["names"], "%s: substances for %s", what, list(p.phases))
            for n in m["names"]:
                c = p[n]
                check(c is p.phases[n], "%s: the species read by name is another", what)
                state_is(c, n, *m["state"][n], what)
            check(p["*"] is p[m["names"][-1]], "%s: '*' is not its last species", what)
    rec.label("adds=%d" % nadd, "shared" if shared else "disjoint")
    rec.nt(nadd >= 1 and any(o[0] == "calc" for o in case["ops"]))


@st.composite
def mix_case(draw):
    n = draw(st.integers(1, 4))
    w = [draw(st.integers(1, 8)) for _ in range(n)]
    return {"names": list(draw(st.permutations(NAMES)))[:n], "w": [x / sum(w) for x in w], "kind": draw(st.sampled_from(["ws", "zs"])),
            "T": draw(TS), "P": draw(PS), "again": draw(st.booleans())}


def body_mix(case, rec):
    names, w = list(case["names"]), list(case["w"])
    kw = {"ws": w} if case["kind"] == "ws" else {"ws": None, "zs": w}
    p = PP.PropertyPackage(len(names), names, **kw)
    p.set_T(case["T"])
    p.set_P(case["P"])
    p.resolve_mixture()
    if case["again"]:
        p.resolve_mixture()
    mw = [fresh(n, 298.15, 101325).MW for n in names]
    if case["kind"] == "ws":
        ws = case["w"]
        zs = [a / b for a, b in zip(ws, mw)]
        zs = [z / sum(zs) for z in zs]
    else:
        zs = case["w"]
        ws = [a * b for a, b in zip(zs, mw)]
        ws = [x / sum(ws) for x in ws]
    for got, want, what in ((p.ws, ws, "mass"), (p.zs, zs, "molar")):
        check(got is not None and len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want)),
              "%s fractions are %s instead of %s (%s given)", what, got, want, case["kind"])
    check(p.mixture is not None and same(p.mixture.T, case["T"]) and same(p.mixture.P, case["P"]), "the mixture is at another temperature or pressure")
    check(all(abs(a - b) < 1e-9 for a, b in zip(p.mixture.zs, zs)), "the mixture has fractions %s instead of %s", p.mixture.zs, zs)
    m = sum(a * b for a, b in zip(zs, mw))
    check(abs(p.mixture.MW - m) < 1e-6 * m, "the molar mass of the mixture is %r instead of %r", p.mixture.MW, m)
    check(names == case["names"] and w == case["w"], "the lists given were changed")
    rec.nt(len(names) >= 2)


@st.composite
def own_case(draw):
    return {"default": draw(st.booleans()), "names": list(draw(st.permutations(NAMES)))[:2], "add": draw(st.sampled_from(NAMES)), "w": draw(st.booleans()), "T": draw(TS)}


def body_own(case, rec):
    """a package owns its lists: other packages, and the caller's lists, are not affected by it"""
    names, w = list(case["names"]), [0.5, 0.5]
    mk = (lambda: PP.PropertyPackage()) if case["default"] else (lambda: PP.PropertyPackage(2, names, w))
    a, b = mk(), mk()
    want = list(b.phase_names), list(b.ws), b.number_of_phases
    r = a + PP.PropertyPackage(1, [case["add"]])
    r.ws.append(0.0)
    r.set_T(case["T"])
    r.calculate(case["T"], 101325.0)
    c = mk()
    for x, what in ((b, "an earlier package"), (c, "a later package")):
        check((list(x.phase_names), list(x.ws), x.number_of_phases) == want, "%s was changed by another one: %s, %s", what, x.phase_names, x.ws)
        check(x.T == 298.15, "%s is at another temperature", what)
        for n in x.phase_names:
            state_is(x[n], n, 298.15, 101325, what)
    check(names == case["names"] and w == [0.5, 0.5], "the lists given were changed")
    for f in (a.set_T, a.set_P):
        for bad in ("300", None):
            expect_raises(Exception, lambda: f(bad), "%s(%r)" % (f.__name__, bad))
    a.set_P(2e5)
    check(a.P == 2e5 and a.T == (case["T"] if r is a else 298.15), "set_P/set_T: T=%r P=%r", a.T, a.P)
    rec.nt(not case["default"] or case["add"] != "water")


SUBS = [
    Sub("history", strategy, body, 200, 2000,
        "histories of combining packages and calculating states against a model of names and states (each species compared with a fresh substance of thermo); "
        "non-trivial: a combination and a calculation", shards=5),
    Sub("mixture", mix_case, body_mix, 100, 1000, "mixtures from mass or molar fractions against the molar masses; non-trivial: two species", shards=2),
    Sub("ownership", own_case, body_own, 60, 500, "packages made from the same or default lists do not share state; non-trivial: a species is added"),
]
ASSUMPTIONS = ["a sum may be returned as the left operand itself, as the current code does; the right operand is never changed"]
