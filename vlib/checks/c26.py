"""C26 plots show the data asked for, under the names asked for."""
import importlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use("Agg")
import matplotlib.figure  # noqa
import matplotlib.pyplot as plt  # noqa

from ..gen import *  # noqa
from ..runner import Sub, check, Violation, expect_raises
from ..systems import mods

S = sloth()
M = mods()
PL = importlib.import_module("src.sloth.plotter")


class Watch:
    """what a figure contains at the time it is shown or saved"""

    def __enter__(self):
        self.shown, self.saved = [], []
        self.old = plt.show, matplotlib.figure.Figure.savefig
        plt.show = lambda *a, **k: self.shown.append(self.look(plt.gcf()))

        def savefig(fig, name, *a, **k):
            self.saved.append((name, self.look(fig)))
            return self.old[1](fig, name, *a, **k)
        matplotlib.figure.Figure.savefig = savefig
        return self

    def __exit__(self, *a):
        plt.show, matplotlib.figure.Figure.savefig = self.old
        plt.close("all")

    @staticmethod
    def look(fig):
        check(len(fig.axes) == 1, "the figure has %d axes", len(fig.axes))
        ax = fig.axes[0]
        lg = ax.get_legend()
        return {"lines": [{"x": [float(v) for v in ln.get_xdata()], "y": [float(v) for v in ln.get_ydata()], "label": ln.get_label(),
                           "marker": ln.get_marker(), "width": ln.get_linewidth()} for ln in ax.get_lines()],
                "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(), "xlim": [float(v) for v in ax.get_xlim()],
                "legend": None if lg is None else [t.get_text() for t in lg.get_texts()],
                "grid": any(g.get_visible() for g in ax.get_xgridlines())}


NUMS = st.integers(-40, 40).map(lambda k: k / 4.0)
NM = ["t", "u", "v", "Preys(u)", "x1", "T", "y 2", "w", "x2", "z_A"]


@st.composite
def one_plot(draw, ncol):
    ys = list(draw(st.lists(st.integers(1, ncol - 1), min_size=1, max_size=draw(st.sampled_from([3, 3, 7])), unique=True)))
    return {"y": ys, "labels": draw(st.one_of(st.none(), st.just(["L%d %d" % (i, draw(st.integers(0, 9))) for i in ys]))),
            "markers": draw(st.one_of(st.none(), st.just([draw(st.sampled_from("ox^sv")) for _ in ys]))),
            "width": draw(st.sampled_from([None, 1.0, 3.5])), "xl": draw(st.sampled_from([None, "Time (s)"])), "yl": draw(st.sampled_from([None, "Individuals"])),
            "legend": draw(st.booleans()), "grid": draw(st.booleans()), "out": draw(st.sampled_from(["show", "show", "save", "both", "none"])),
            "via": draw(st.sampled_from(["name", "name", "array"])), "x2": draw(st.sampled_from([None, None, draw(st.integers(1, ncol - 1))])), "sim": draw(st.booleans()), "bad": draw(st.sampled_from([None] * 8 + ["x", "y"]))}


@st.composite
def strategy(draw):
    ncol = draw(st.sampled_from([2, 3, 4, 5, 8, 9]))
    names = list(draw(st.permutations(NM)))[:ncol]
    rows = draw(st.integers(2, 6))
    t = sorted(draw(st.lists(st.integers(-20, 80), min_size=rows, max_size=rows, unique=True)))
    data = [[x / 4.0] + [draw(NUMS) for _ in range(ncol - 1)] for x in t]
    return {"names": names, "data": data, "many": draw(st.sampled_from([0] * 9 + [150, 400, 1100, 2500])), "rename": draw(st.booleans()), "plots": [draw(one_plot(ncol)) for _ in range(draw(st.integers(1, 3)))]}


def body(case, rec):
    tmp = tempfile.mkdtemp(prefix="c26_")
    try:
        run(case, rec, tmp)
    finally:
        shutil.rmtree(tmp)


def run(case, rec, tmp):
    if case["many"]:
        # a long simulation: the rows continued by rule
        r0, k = case["data"], len(case["data"])
        case = dict(case, data=[[r0[-1][0] + (i - k + 1) / 8. if i >= k else r0[i][0]] + [v + i // k for v in r0[i % k][1:]] for i in range(case["many"])])
        rec.label("rows>100")
    inner = ["q%d" % i for i in range(len(case["names"]))] if case["rename"] else case["names"]
    qs = [S.Variable(n, mk_unit(ZERO), "") for n in inner]
    d = S.Domain("dom", mk_unit(ZERO), qs[0], "")
    for q in qs[1:]:
        q.distributeOnDomain(d)
    d._register(np.array(case["data"]))
    if case["rename"]:
        d._renameHeaders(dict(zip(inner, case["names"])))
    ind = inner[0]
    col = lambda j: [r[j] for r in case["data"]]  # noqa
    sim = M.Simulation("s", "")
    with Watch() as w:
        for k, p in enumerate(case["plots"]):
            kw = {}
            for a, b in (("labels", "labels"), ("markers", "markers"), ("width", "linewidth"), ("xl", "x_label"), ("yl", "y_label")):
                if p[a] is not None:
                    kw[b] = p[a]
            f = os.path.join(tmp, "plot%d.png" % k)
            if p["out"] in ("save", "both"):
                kw["save_file"] = f
            kw.update(legend=p["legend"], grid=p["grid"], show_plot=p["out"] in ("show", "both"))
            yn = [case["names"][j] for j in p["y"]]
            if p["via"] == "name":
                kw.update(data=d, x_data=case["names"][0] if p["bad"] != "x" else "absent", y_data=yn if p["bad"] != "y" else yn + ["absent"])
            else:
                xn = case["names"][0] if p["x2"] is None else [case["names"][0], case["names"][p["x2"]]]
                kw.update(x_data=d[(ind, xn)], y_data=d[(ind, yn)])
            plot = sim.plotTimeSeries if p["sim"] else PL.Plotter(sim).plotTimeSeries
            ns, nv = len(w.shown), len(w.saved)
            if p["bad"] and p["via"] == "name":
                expect_raises(Exception, lambda: plot(**kw), "plotting a column that does not exist")
                check(len(w.shown) == ns and len(w.saved) == nv and not os.path.exists(f), "a refused plot was drawn")
                continue
            plot(**kw)
            check(len(w.shown) - ns == (p["out"] in ("show", "both")), "show_plot=%s: %d plots shown", kw["show_plot"], len(w.shown) - ns)
            check(len(w.saved) - nv == (p["out"] in ("save", "both")), "%d plots saved, save_file=%s", len(w.saved) - nv, kw.get("save_file"))
            looks = [s for s in w.shown[ns:]]
            for name, look in w.saved[nv:]:
                check(name == f and os.path.exists(f) and os.path.getsize(f) > 100, "the plot was not saved in the file asked for")
                looks.append(look)
            for lk in looks:
                verify(lk, p, col, case)
            rec.label(p["out"], p["via"])
    rec.nt(len(case["plots"]) >= 2 or len(case["plots"][0]["y"]) >= 2)


def verify(lk, p, col, case):
    what = "plot of %s over %s" % ([case["names"][j] for j in p["y"]], case["names"][0])
    got = [(ln["x"], ln["y"]) for ln in lk["lines"]]
    xs = [0] if p["x2"] is None or p["via"] == "name" else [0, p["x2"]]
    want = [(col(i), col(j)) for i in xs for j in p["y"]]
    # every ordinate over every abscissa, whatever the order of the abscissae
    if len(xs) == 2 and got != want:
        h = len(p["y"])
        got, lk = got[h:] + got[:h], dict(lk, lines=lk["lines"][h:] + lk["lines"][:h])
    check(got == want, "%s: lines %s, the data are %s (%s points for %s)", what, str(got)[:300], str(want)[:300], [len(g[0]) for g in got], [len(g[0]) for g in want])
    for n, ln in enumerate(lk["lines"]):
        n %= len(p["y"])
        if p["labels"] is not None:
            check(ln["label"] == p["labels"][n], "%s: line %d is labelled %r instead of %r", what, n, ln["label"], p["labels"][n])
        check(p["markers"] is None and ln["marker"] in ("None", None, "") or p["markers"] is not None and ln["marker"] == p["markers"][n],
              "%s: line %d has marker %r, asked for %s", what, n, ln["marker"], p["markers"])
        if p["width"] is not None:
            check(ln["width"] == p["width"], "%s: line width %r instead of %r", what, ln["width"], p["width"])
    for a, b, dflt in (("xlabel", "xl", "time"), ("ylabel", "yl", "output")):
        check(lk[a] == (p[b] if p[b] is not None else dflt), "%s: %s is %r, asked for %r", what, a, lk[a], p[b])
    check(len(xs) == 2 or lk["xlim"] == [min(col(0)), max(col(0))], "%s: the horizontal axis covers %s", what, lk["xlim"])
    check(lk["grid"] == p["grid"], "%s: grid=%s, asked for %s", what, lk["grid"], p["grid"])
    check((lk["legend"] is not None) == p["legend"], "%s: legend %s", what, lk["legend"])
    if p["legend"] and p["labels"] is not None:
        check(lk["legend"] == p["labels"] * len(xs), "%s: the legend is %s", what, lk["legend"])


SUBS = [
    Sub("plots", strategy, body, 120, 1200,
        "sequences of plots of registered data, by column name or by array, with every option, looked at when shown or saved: lines, labels, markers, axes, "
        "nothing left of earlier plots; unknown columns refused; non-trivial: two plots or two lines", shards=6),
]
ASSUMPTIONS = ["a figure is looked at when pyplot.show or Figure.savefig is called"]
