"""C27: plot helpers."""
import contextlib
import datetime as dt
import io

import numpy as np

from pyvc.core import Ctx
from .common import Unit, get, mod, unit

B = "plots.basics"
FQ = "seismostats.plots.basics:"


@unit("gutenberg_richter", ["C27", "C14"], [FQ + "gutenberg_richter"], cases=150)
class GutenbergRichter(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 10)
        return {"n": n, "m": V.arr("m", n, gen=lambda g, k: np.round(g.uniform(-1, 7, k), 2)),
                "b": V.real("b", gen=lambda g: float(np.round(g.uniform(-1, 3), 2))),
                "mc": V.real("mc", gen=lambda g: float(np.round(g.uniform(-1, 4), 1))),
                "count": V.int("count", 0, 500)}

    def run(self, a):
        return get(B + ":gutenberg_richter")(a["m"], a["b"], a["mc"], a["count"])

    def post(self, P, S, a, r):
        f = lambda i: S.real(a["count"]) * S.pow(10, -a["b"] * (S.at(a["m"], i) - a["mc"]))
        P.eq("count * 10^(-b (m - mc))", r, S.seq(a["n"], f))


class Sizes(Unit):
    def inputs(self, V):
        n = V.int("n", 2, 10)
        a = {"n": n, "m": V.arr("m", n, gen=lambda g, k: np.round(g.uniform(-1, 7, k), int(g.integers(1, 3)))),
             "lo": V.real("smallest", lo=0, gen=lambda g: float(g.choice([0, 1, 10, 25.5]))),
             "hi": V.real("largest", lo=0, gen=lambda g: float(g.choice([5, 30, 200]))),
             "p": V.choice("power", ["any", 1, 2])}
        if a["p"] == "any":
            a["p"] = V.real("interpolation power", gt=0, gen=lambda g: float(g.choice([0.5, 1.5, 3, 4])))
        return a

    def ends(self, S, a):
        m, n = a["m"], a["n"]
        return S.min(n, lambda i: S.at(m, i)), S.max(n, lambda i: S.at(m, i))

    def pre(self, S, a):
        x, y = self.ends(S, a)
        return [x < y]


@unit("dot_size", ["C27", "C14"], [FQ + "dot_size"], cases=200)
class DotSize(Sizes):
    """power interpolation between the smallest and the largest size"""

    def run(self, a):
        return get(B + ":dot_size")(a["m"], a["lo"], a["hi"], a["p"])

    def post(self, P, S, a, r):
        m, n, lo, hi = a["m"], a["n"], a["lo"], a["hi"]
        x, y = self.ends(S, a)
        hi = S.ite(S.num(hi) <= lo, 50 * S.maximum(S.num(lo), S.num(2)), hi)
        P.eq("one size per magnitude", S.len(r), n)
        is_ = (lambda u, v: u == v) if S.symbolic else (lambda u, v: abs(u - v) < 1e-9)
        less = (lambda u, v: u < v) if S.symbolic else (lambda u, v: u <= v)
        P.forall("the smallest magnitude has the smallest size", n, lambda i: S.implies(
            S.at(m, i) == x, is_(S.at(r, i), lo)))
        P.forall("the largest magnitude has the largest size", n, lambda i: S.implies(
            S.at(m, i) == y, is_(S.at(r, i), hi)))
        P.forall("sizes grow with the magnitude", n, lambda i: S.forall(n, lambda j: S.implies(
            S.at(m, i) < S.at(m, j), less(S.at(r, i), S.at(r, j)))))
        P.eq("power interpolation", r, S.seq(n, lambda i: S.pow((S.at(m, i) - x) / (y - x), a["p"]) * (hi - lo) + lo))


@unit("reverse_dot_size", ["C27", "C14"], [FQ + "dot_size", FQ + "reverse_dot_size"], cases=200)
class ReverseDotSize(Sizes):
    """reverse_dot_size recovers the magnitudes from their sizes"""

    def run(self, a):
        S = a["S"]
        f = mod(B)
        sizes = f.dot_size(a["m"], a["lo"], a["hi"], a["p"])
        x, y = self.ends(S, a)
        return f.reverse_dot_size(sizes, x, y, a["p"])

    def pre(self, S, a):
        a["S"] = S
        return super().pre(S, a)

    def post(self, P, S, a, r):
        kw = {} if S.symbolic else {"rtol": 1e-6, "atol": 1e-6}
        P.eq("inverse of dot_size", r, S.seq(a["n"], lambda i: S.at(a["m"], i)), **kw)


ST = "plots.statistical"


def pandas():
    import pandas
    return pandas


def figure(f):
    import matplotlib.pyplot as plt
    with contextlib.redirect_stdout(io.StringIO()):
        ax = f()
    plt.close("all")
    return ax


class Plot(Unit):
    def inputs(self, V):
        g = V.rng
        n = V.int("n", 8, 40)
        dm = float(g.choice([0.1, 0.2, 0.5]))
        m = np.round(np.round(1 + g.exponential(0.6, n) / dm) * dm, 6)
        m[0] = m[1:].max() + dm
        t = np.sort(g.choice(np.arange(1, 4000), n, replace=False))
        if g.random() < 0.4:
            g.shuffle(t)
        a = {"n": n, "dm": dm, "m": m, "t": np.datetime64("1990-01-01") + t.astype("timedelta64[D]"),
             "w": None if g.random() < 0.5 else np.round(g.random(n) + 0.25, 2)}
        if g.random() < 0.3:
            s = pandas().Series(m, index=g.permutation(n) + 3)
            a["m"] = s
        V.values.update(dm=dm, m=m.tolist(), days=t.tolist(), weights=None if a["w"] is None else a["w"].tolist())
        return a


@unit("plot_mags_in_time", ["C27", "C14"], [FQ + "plot_mags_in_time"], cases=40, symbolic=False,
      why_bounded="draws with matplotlib")
class MagsInTime(Plot):
    def inputs(self, V):
        g = V.rng
        a = super().inputs(V)
        a["p"] = float(g.choice([1, 2, 3]))
        a["sizes"] = (float(g.choice([1, 10])), float(g.choice([50, 200])))
        k = int(g.integers(1, 4))
        y = sorted(int(x) for x in g.choice(np.arange(1985, 1999), k, replace=False))
        a["changes"] = y if g.random() < 0.5 else [dt.datetime(x, 2, 3) for x in y]
        a["mcs"] = [float(x) for x in np.round(g.uniform(0, 3, k), 1)]
        a["lines"] = bool(g.random() < 0.8)
        V.values.update(changes=str(a["changes"]), mcs=a["mcs"], power=a["p"])
        return a

    def run(self, a):
        k = {"mc_change_times": a["changes"], "mcs": a["mcs"]} if a["lines"] else {}
        return figure(lambda: mod(B).plot_mags_in_time(
            a["t"], a["m"], dot_smallest=a["sizes"][0], dot_largest=a["sizes"][1], dot_interpolation_power=a["p"], **k))

    def post(self, P, S, a, r):
        pd = pandas()
        m = np.asarray(a["m"])
        sc = r.collections[0]
        P.eq("the magnitudes are shown", np.asarray(sc.get_offsets()[:, 1]), m)
        x = (m - m.min()) / (m.max() - m.min())
        P.eq("dot sizes by power interpolation", np.asarray(sc.get_sizes()),
             x ** a["p"] * (a["sizes"][1] - a["sizes"][0]) + a["sizes"][0])
        if a["lines"]:
            P.eq("the steps of the completeness", np.asarray(r.lines[0].get_ydata(), float),
                 np.array(a["mcs"] + a["mcs"][-1:]))
            P.check("the steps start at the change times and end with the catalogue", list(
                pd.to_datetime(r.lines[0].get_xdata())) == [
                pd.Timestamp(x, 1, 1) if isinstance(x, int) else pd.Timestamp(x) for x in a["changes"]] +
                [pd.Timestamp(a["t"].max())])


@unit("plot_counts", ["C27", "C14"], [FQ + "plot_cum_count", FQ + "plot_fmd", FQ + "plot_cum_fmd"], cases=40,
      symbolic=False, why_bounded="draws with matplotlib")
class Counts(Plot):
    """the counts drawn are those of the events"""

    def inputs(self, V):
        g = V.rng
        a = super().inputs(V)
        k = int(g.integers(1, 4))
        m = np.asarray(a["m"])
        a["mcs"] = None if g.random() < 0.3 else np.sort(g.choice(np.unique(m), min(k, len(np.unique(m))), False))
        a["normalize"] = bool(g.random() < 0.5)
        a["left"] = "left" if g.random() < 0.5 else "center"
        a["b"] = float(np.round(g.uniform(0.5, 2), 2))
        a["mc"] = None if g.random() < 0.5 else float(g.choice(np.unique(m)[:3]))
        V.values.update(mcs=str(a["mcs"]), normalize=a["normalize"], position=a["left"], mc=a["mc"], b=a["b"])
        return a

    def run(self, a):
        f = mod(B)
        m = a["m"]
        return {"count": figure(lambda: f.plot_cum_count(a["t"], m, a["mcs"], a["dm"], a["w"], a["normalize"])),
                "fmd": figure(lambda: f.plot_fmd(m, a["dm"], a["w"], bin_position=a["left"])),
                "cum": figure(lambda: f.plot_cum_fmd(m, a["mc"], a["dm"], a["w"], b_value=a["b"],
                                                     bin_position=a["left"]))}

    def post(self, P, S, a, r):
        pd = pandas()
        m, t, dm = np.asarray(a["m"]), a["t"], a["dm"]
        w = np.ones(len(m)) if a["w"] is None else a["w"]
        mcs = [m.min()] if a["mcs"] is None else a["mcs"]
        P.eq("one line per completeness magnitude", len(r["count"].lines), len(mcs))
        for line, mc in zip(r["count"].lines, mcs):
            k = m > mc - dm / 2
            o = np.argsort(t[k])
            c = np.cumsum(w[k][o])
            y = np.concatenate([[0], c, c[-1:]])
            P.eq("cumulative count", np.asarray(line.get_ydata(), float), y / y[-1] if a["normalize"] else y)
            P.check("the counts step at the events", list(pd.to_datetime(line.get_xdata())) == list(
                pd.to_datetime(np.concatenate([[t.min()], t[k][o], [t.max()]]))))
        xy = np.asarray(r["fmd"].collections[0].get_offsets())
        xy = xy[xy[:, 1] > 0]
        shift = dm / 2 if a["left"] == "left" else 0
        v = np.unique(m)
        P.eq("magnitude bins", xy[:, 0], v - shift, atol=1e-9)
        P.eq("counts", xy[:, 1], np.array([w[m == x].sum() for x in v]))
        xy = np.asarray(r["cum"].collections[0].get_offsets())
        if a["w"] is None:
            P.eq("cumulative counts", xy[:, 1], np.array(
                [(m > x + shift - dm / 2).sum() for x in xy[:, 0]]))
        line = r["cum"].lines[0]
        mc = m.min() if a["mc"] is None else a["mc"]
        x, y = (np.asarray(u, float) for u in line.get_data())
        n = (m > mc - dm / 2).sum()
        P.eq("Gutenberg-Richter line", y, n * 10 ** (-a["b"] * (x - mc + shift)))
        P.check("the line starts at mc", abs(x.min() - (mc - shift)) < 1e-9)


@unit("plot_statistics", ["C27", "C14"], ["seismostats.plots.statistical:" + f for f in (
    "plot_mc_vs_b", "plot_b_series_constant_nm", "plot_b_significant_1D")], cases=25, symbolic=False,
    why_bounded="draws with matplotlib")
class Statistics(Plot):
    """frame only: the arrays and lists passed in are left as they were"""

    def inputs(self, V):
        g = V.rng
        a = super().inputs(V)
        m = np.asarray(a["m"])
        n = a["n"]
        a["f"] = ["plot_mc_vs_b", "plot_b_series_constant_nm", "plot_b_significant_1D"][int(g.integers(3))]
        if a["f"] == "plot_b_significant_1D":
            m = np.tile(m, 12)[:240]
            a["t"] = np.datetime64("1990-01-01") + g.permutation(len(m)).astype("timedelta64[D]")
            a["n_ms"] = np.array([10, 15, 16])
        a["m"] = m
        a["x"] = None if g.random() < 0.5 else g.permutation(len(m)).astype(float)
        a["mc"] = float(np.unique(m)[0]) if g.random() < 0.4 else np.full(len(m), np.unique(m)[1])
        a["mcs"] = np.unique(m)[:3]
        V.values.update(f=a["f"], m=m.tolist(), mc=str(a["mc"]))
        return a

    def run(self, a):
        f = getattr(mod(ST), a["f"])
        if a["f"] == "plot_mc_vs_b":
            return figure(lambda: f(a["m"], a["mcs"], a["dm"]))
        if a["f"] == "plot_b_series_constant_nm":
            return figure(lambda: f(a["m"], a["dm"], a["mc"], a["t"], 5, x_variable=a["x"]))
        return figure(lambda: f(a["m"], a["mc"], a["dm"], a["t"], a["n_ms"], x_variable=a["x"]))

    def post(self, P, S, a, r):
        P.check("a figure is returned", r is not None)
