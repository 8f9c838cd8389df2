"""C07 (and C12, C13 through it): a-value estimators."""
import numpy as np

from .common import Unit, get, size, unit
from .estimators import Catalogue, Pairs, complete, make, next_larger, on_grid, time_order

BASE = "seismostats.analysis.avalue.base:AValueEstimator."
AFUN = [BASE + "calculate", BASE + "_filter_magnitudes", BASE + "_sanity_checks", BASE + "_reference_scaling",
        BASE + "a_value", BASE + "value", BASE + "n"]


def span(S, t, i, j):
    """time from event i to event j"""
    d = S.at(t, j) - S.at(t, i)
    if isinstance(d, np.timedelta64):
        return float(d / np.timedelta64(1, "ns"))
    return d


class AUnit(Unit):
    times = False
    needs_b = False
    part = "valid"
    cases = 220

    def inputs(self, V):
        n = V.int("n", 0, upto=[8, 30][int(V.rng.integers(2))] if not V.symbolic else None)
        a = {"sym": V.symbolic, "n": n}
        cat = None if V.symbolic else Catalogue(V.rng, int(n))
        bad = V.choice("fault", [None, None, None, "grid"]) if not V.symbolic else None

        def mags(g, k):
            x = cat.x.copy()
            if bad == "grid" and k and cat.dm:
                x[int(g.integers(k))] += cat.dm * 0.3
            return x
        how = V.choice("variant", ["used before", "list"]) if V.symbolic else \
            V.choice("variant", ["new", "list", "used before"])
        plain = V.symbolic and how == "list"
        given = lambda nm: None if plain else V.choice(nm + " given", [None, 1])
        a["x"] = V.arr("x", n, gen=mags, is_list=how == "list")
        a["mc"] = V.real("mc", gen=lambda g: cat.mc if g.random() < 0.95 else cat.mc + 100 * max(cat.dm, 0.1))
        a["dm"] = V.real("dm", lo=0, gen=lambda g: cat.dm)
        a["m_ref"] = given("m_ref") and V.real("m_ref", gen=lambda g: [0.0, 1.0, 2.5, -1.0, 0.3][int(g.integers(5))])
        b = 1 if self.needs_b and (self.part == "valid" or V.symbolic) else \
            1 if self.part == "valid" and a["m_ref"] is not None and V.symbolic else given("b")
        a["b"] = b and V.real("b", gen=lambda g: [0.0, 1.0, 0.8, 1.5][int(g.integers(4))])
        a["sf"] = given("scaling") and V.real("sf", gt=0, gen=lambda g: [1.0, 10.0, 0.25, 3.0][int(g.integers(4))])
        a["t"], a["dmc"] = None, None
        if self.times:
            def ts(g, k):
                return cat.times()
            a["t"] = V.arr("t", n, gen=ts)
            if given("dmc"):
                a["dmc"] = V.real("dmc", gen=lambda g: [0.0 if cat.dm == 0 else -0.1, cat.dmc() or 0.0][int(g.random() < 0.93)])
        a["reused"] = 1 if V.symbolic else False if how == "new" else int(V.rng.integers(10 ** 6))
        return a

    def effective_dmc(self, a):
        return a["dm"] if a["dmc"] is None else a["dmc"]

    def raises(self, S, a):
        n = a["n"]
        r = [(S.and_(n > 0, S.not_(on_grid(S, a["x"], a["dm"]))), ValueError, "magnitudes not binned to delta_m")]
        if self.times:
            r.append((self.effective_dmc(a) < 0, ValueError, "negative dmc"))
        if self.needs_b:
            r.append((a["b"] is None, ValueError, "no b-value"))
        elif a["m_ref"] is not None and a["b"] is None:
            some = S.len(complete(S, a["x"], a["mc"], a["dm"])) > 0
            r.append((some, ValueError, "reference magnitude without b-value"))
            r.append((S.not_(some), ValueError, "reference magnitude without b-value or events", "may"))
        return r

    def valid(self, S, a):
        return S.and_(*[S.not_(c) for c, *k in self.raises(S, a) if k[-1] != "may"])

    def pre(self, S, a):
        n, x, dm = a["n"], a["x"], a["dm"]
        p = [S.or_(S.eq(dm, 0), dm > 1e-9)]
        if self.part == "valid" and S.symbolic:
            p.append(self.valid(S, a))
        if a["t"] is not None:
            t = a["t"]
            p.append(S.forall(n, lambda i: S.forall(n, lambda j: S.implies(S.at(t, i) == S.at(t, j), S.eq(i, j))))
                     if S.symbolic else len(set(np.asarray(t).tolist())) == n)
        if not S.symbolic:
            # rounding must not decide which events and pairs are used
            y = np.asarray(x, dtype=float)
            near = lambda d: bool(np.any((np.abs(d) < 1e-9) & (d != 0)))
            p.append(not near(y - (a["mc"] - dm / 2)))
            if self.times:
                p.append(not near(np.subtract.outer(y, y) - (self.effective_dmc(a) - dm / 2)))
        return p

    def run(self, a):
        est = make(get(self.cls), a)
        if self.part == "refusals" and a["sym"]:
            est._estimate = lambda: 0.0
        kw = {"scaling_factor": a["sf"], "m_ref": a["m_ref"], "b_value": a["b"]}
        if self.times:
            kw.update(times=a["t"], dmc=a["dmc"])
        v = est.calculate(a["x"], a["mc"], a["dm"], **kw)
        if self.part == "refusals":
            return v
        return {"value": v, "a_value": est.a_value, "value property": est.value, "idx": est.idx,
                "magnitudes": est.magnitudes, "n": est.n}

    def post(self, P, S, a, r):
        if self.part == "refusals":
            return
        ev = time_order(S, a["x"], a["t"], a["mc"], a["dm"])
        if S.is_true(S.eq(S.len(ev), 0)):
            P.check("NaN without complete events", S.and_(S.isnan(r["value"]), S.isnan(r["a_value"])))
            P.eq("no events used", r["n"], S.num(0))
            P.eq("no positions", S.len(r["idx"]), S.num(0))
            return
        av, idx = self.spec(S, a, ev)
        if av is None:
            P.check("NaN without pairs", S.and_(S.isnan(r["value"]), S.isnan(r["a_value"])))
            P.eq("no events used", r["n"], S.num(0))
            return
        P.eq("positions of the used events", r["idx"], S.seq(S.len(idx), lambda i: S.at(idx, i), kind="i"))
        P.eq("magnitudes of the used events", r["magnitudes"],
             S.seq(S.len(idx), lambda i: S.at(a["x"], S.at(idx, i))))
        P.eq("number of used events", r["n"], S.len(idx))
        if a["m_ref"] is not None:
            av = av - a["b"] * (a["m_ref"] - a["mc"])
        if a["sf"] is not None:
            av = av - S.log10(a["sf"])
        P.eq("a-value", r["value"], av)
        P.eq("a_value", r["a_value"], av)
        P.eq("value", r["value property"], av)


@unit("classic_a", ["C07", "C12", "C13", "C14"],
      AFUN + ["seismostats.analysis.avalue.classic:ClassicAValueEstimator._estimate"])
class ClassicA(AUnit):
    cls = "analysis.avalue:ClassicAValueEstimator"

    def spec(self, S, a, ev):
        return S.log10(S.real(S.len(ev))), ev


POS = "seismostats.analysis.avalue.positive:APositiveAValueEstimator."
MORE = "seismostats.analysis.avalue.more_positive:AMorePositiveAValueEstimator."


@unit("a_positive", ["C07", "C12", "C13", "C14"], AFUN + [POS + "calculate", POS + "_filter_magnitudes", POS + "_estimate"])
class APositive(AUnit):
    cls = "analysis.avalue:APositiveAValueEstimator"
    times = True
    split = {"variant": 2, "dmc given": 2}

    def spec(self, S, a, ev):
        """events per time spent after a step, from the steps of at least dmc"""
        t, dm, dmc = a["t"], a["dm"], self.effective_dmc(a)
        p = Pairs().consecutive(S, a["x"], ev, dmc, dm)
        if S.is_true(S.eq(p.n, 0)):
            return None, None
        T = span(S, t, S.at(ev, 0), S.at(ev, S.len(ev) - 1))
        f = S.sum(p.n, lambda k: span(S, t, S.at(p.early, k), S.at(p.later, k)) / T)
        return S.log10(S.real(p.n) / f), p.later


@unit("a_more_positive", ["C07", "C12", "C13", "C14"],
      AFUN + [MORE + "calculate", MORE + "_filter_magnitudes", MORE + "_estimate"])
class AMorePositive(AUnit):
    cls = "analysis.avalue:AMorePositiveAValueEstimator"
    times = True
    needs_b = True
    split = {"variant": 2, "dmc given": 2}

    def spec(self, S, a, ev):
        t, x, dm, dmc, mc, b = a["t"], a["x"], a["dm"], self.effective_dmc(a), a["mc"], a["b"]
        m = S.len(ev)
        y = S.select(x, ev)
        p = Pairs().next_larger(S, x, ev, dmc, dm)
        if S.is_true(S.eq(p.n, 0)):
            return None, None
        nx = lambda j: next_larger(S, y, j, dmc, dm)
        T = span(S, t, S.at(ev, 0), S.at(ev, m - 1))

        def wait(j):
            w = S.ite(S.not_(S.eq(nx(j), 0)), span(S, t, S.at(ev, j), S.at(ev, nx(j))), span(S, t, S.at(ev, j), S.at(ev, m - 1)))
            return w * S.pow(10, -b * (S.at(y, j) + dmc - mc)) / T
        f = S.sum(m, wait)
        return S.log10(S.real(p.n) / f), p.later


for _u in (ClassicA, APositive, AMorePositive):
    unit(_u.uid + "_refusals", ["C07", "C12", "C13"], AFUN + [MORE + "calculate", POS + "calculate"], cases=60)(
        type(_u.__name__ + "Refusals", (_u,), {"part": "refusals"}))
