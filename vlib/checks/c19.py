"""C19 a domain keeps every registered value under the right name."""
import numpy as np
from hypothesis import strategies as st

from ..gen import *  # noqa
from ..runner import Sub, check, Violation
from ..systems import mods

S = sloth()
M = mods()
NM = ["u", "v", "w", "t", "x", "Time(t)", "p 1", "u2"]


@st.composite
def strategy(draw):
    nind = draw(st.integers(1, 2))
    ndep = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NM), min_size=nind + ndep, max_size=nind + ndep, unique=True))
    W = nind + ndep
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["reg", "reg", "reg", "bad", "rename", "swap", "reset", "read", "read", "call"]))
        if k == "reg":
            rows = draw(st.integers(1, 4))
            val = [[draw(st.integers(-99, 99)) / 4 for _ in range(W)] for _ in range(rows)]
            if draw(st.integers(0, 3)) == 0:
                # whole numbers, written as such
                val = [[int(x) for x in row] for row in val]
            if ops and draw(st.integers(0, 2)) == 0:
                # rows registered before, or within this registration, once more
                old = [o[3] for o in ops if o[0] == "reg"] + [val]
                again = draw(st.sampled_from([o[-1] for o in old] + [o[0] for o in old]))
                again = draw(st.sampled_from(val)) if isinstance(again, (int, float, str)) else again
                val = [list(again)] + val[1:] if draw(st.booleans()) else val[:-1] + [list(again)]
            if draw(st.integers(0, 11)) == 0:
                # a long simulation: the rows continued by rule
                val = ["rows", draw(st.sampled_from([90, 300, 1100, 2600])), W, draw(st.integers(-9, 9))]
            ops.append([k, draw(st.one_of(st.none(), st.integers(0, nind - 1))), draw(st.booleans()), val])
            if nind == 2 and draw(st.booleans()):
                # as many rows over the other independent variable, read together
                i = ops[-1][1] if ops[-1][1] is not None else nind - 1
                ops.append([k, 1 - i, draw(st.booleans()), [[draw(st.integers(-99, 99)) / 4 for _ in range(W)] for _ in val] if val[0] != "rows" else ["rows", val[1], W, 5]])
                ops.append(["read", list(draw(st.permutations([0, 1]))), draw(st.lists(st.integers(0, W - 1), min_size=1, max_size=3)), False])
        elif k == "bad":
            ops.append([k, draw(st.one_of(st.none(), st.integers(0, nind - 1))), draw(st.sampled_from([W - 1, W + 1, W + 2])), draw(st.integers(1, 3))])
        elif k == "rename":
            sub = draw(st.lists(st.integers(0, W - 1), unique=True, max_size=W))
            ops.append([k, [[i, draw(st.sampled_from(["A", "B", "C", "Z"])) + str(i)] for i in sub], draw(st.booleans())])
        elif k == "swap":
            ops.append([k, draw(st.integers(0, W - 1)), draw(st.integers(0, W - 1))])
        elif k == "read":
            ops.append([k, draw(st.lists(st.integers(0, nind - 1), min_size=1, max_size=nind, unique=True)), draw(st.lists(st.integers(0, W - 1), min_size=1, max_size=3)), draw(st.booleans())])
        else:
            ops.append([k])
    return {"names": names, "nind": nind, "ops": ops, "aslist": draw(st.booleans()), "redist": draw(st.integers(0, ndep))}


def rows(v):
    if v[0] == "rows":
        return [[((i * (j + 3) + v[3]) % 97) / 4. + (i if j == 0 else 0) for j in range(v[2])] for i in range(v[1])]
    return v


def body(case, rec):
    if any(o[0] == "reg" and o[3][0] == "rows" for o in case["ops"]):
        case = dict(case, ops=[o[:3] + [rows(o[3])] if o[0] == "reg" else o for o in case["ops"]])
        rec.label("long")
    names, nind = case["names"], case["nind"]
    vs = [S.Variable(n, mk_unit(ZERO), n) for n in names]
    ind, dep = vs[:nind], vs[nind:]
    d = S.Domain("dom", mk_unit(ZERO), ind if nind > 1 or case["aslist"] else ind[0], "d")
    for i, v in enumerate(dep):
        v.distributeOnDomain(d)
        check(v.domain is d, "the variable does not know its domain")
        if i == case["redist"]:
            v.distributeOnDomain(d)
    other = S.Domain("other", mk_unit(ZERO), ind[0], "another domain")
    data = {n: [] for n in names[:nind]}
    cols = {n: list(names) for n in names[:nind]}
    nreg = 0

    def compare(what):
        check(sorted(d.values) == sorted(data), "%s: independent variables %s", what, sorted(d.values))
        for n in data:
            f = d.values[n]
            check(list(f.columns) == cols[n], "%s: columns of %s are %s, expected %s", what, n, list(f.columns), cols[n])
            got = f.values.tolist()
            check([[float(x) for x in r] for r in got] == data[n], "%s: values of %s are %s, registered were %s", what, n, str(got)[:400], str(data[n])[:400])
        check(list(other.dependent_objs) == [] and other.values is None, "another domain was changed")

    compare("after distribution")
    for op in case["ops"]:
        k = op[0]
        if k == "reg":
            n = names[op[1] if op[1] is not None else nind - 1]
            val = np.array(op[3]) if op[2] else [list(row) for row in op[3]]
            if op[1] is None:
                d._register(val)
            else:
                d._register(val, ind[op[1]])
            data[n] += op[3]
            nreg += 1
            # what the caller does with the array afterwards is none of the domain's business
            if op[2]:
                val[:] = 77
            else:
                val[0][0] = 77
        elif k == "bad":
            val = np.zeros((op[3], op[2]))
            try:
                d._register(val, *([] if op[1] is None else [ind[op[1]]]))
            except Exception:  # noqa: any refusal will do
                pass
            else:
                raise Violation("%d values were registered for %d columns" % (op[2], len(names)))
        elif k == "rename":
            m = {names[i]: b for i, b in op[1]}
            if op[2]:
                m["unknown"] = "nothing"
            d._renameHeaders(m)
            cols = {n: [m.get(c, c) for c in cs] for n, cs in cols.items()}
        elif k == "swap":
            a, b = names[op[1]], names[op[2]]
            m = {a: b, b: a}
            d._renameHeaders(m)
            cols = {n: [m.get(c, c) for c in cs] for n, cs in cols.items()}
        elif k in ("reset", "call"):
            d._reset() if k == "reset" else d()
            data = {n: [] for n in data}
            cols = {n: list(names) for n in data}
        elif k == "read":
            iv = [names[i] for i in op[1]]
            if not all(data[n] for n in iv) or len({len(data[n]) for n in iv}) > 1:
                continue
            hs = [cols[iv[0]][j] for j in op[2]]
            if any(h not in cols[n] for n in iv for h in hs):
                continue
            one = op[3] and len(iv) == 1 and len(hs) == 1
            r = d[(iv[0], hs[0])] if one else d[(iv, hs)]
            want = [[row[cols[n].index(h)] for row in data[n]] for n in iv for h in hs]
            check(np.array(r).tolist() == want, "reading %s over %s gives %s, registered were %s", hs, iv, str(np.array(r).tolist())[:400], str(want)[:400])
            np.asarray(r)[:] = 55
        compare("after " + k)
    rec.label(*[o[0] for o in case["ops"]])
    rec.nt(nreg >= 2)


SUBS = [
    Sub("history", strategy, body, 500, 5000,
        "random histories of registrations, refused registrations, renamings, resets and readings on domains of one or two independent variables against a "
        "list-of-rows model; non-trivial: two or more registrations", shards=6),
]
ASSUMPTIONS = ["the values read back are the numbers registered, whatever the caller does with the arrays afterwards"]
