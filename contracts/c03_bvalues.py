"""C03, C04, C05 (and C06, C12, C13 through them): b-value estimators."""
import numpy as np

from .common import Unit, gen_weights, get, size, stub, unit, wmean, wtot
from pyvc.runtime import State
from .c01_binning import binned
from .c06_uncertainty import shi_bolt
from .estimators import (Catalogue, Pairs, complete, make, mle, next_larger, on_grid, time_order)

BASE = "seismostats.analysis.bvalue.base:BValueEstimator."
BFUN = [BASE + "calculate", BASE + "_filter_magnitudes", BASE + "_sanity_checks", BASE + "b_value", BASE + "value",
        BASE + "beta", BASE + "std", BASE + "std_beta", BASE + "n"]


@stub("seismostats.utils.binning:binning_test", by=["binning_test", "binning_test_grid", "binning_test_zero"])
def _binning_test(S, A, ctx):
    if bool(S.len(A.x) == 0):
        raise ValueError("The given array has no entry")
    return on_grid(S, A.x, S.num(A.delta_x))


class BUnit(Unit):
    """inputs shared by the b-value estimators"""
    times = False
    part = "valid"          # symbolically: refusals are a unit of their own
    cases = 220
    nan = False

    def inputs(self, V):
        n = V.int("n", 0, upto=[8, 30][int(V.rng.integers(2))] if not V.symbolic else None)
        a = {"sym": V.symbolic}
        cat = None if V.symbolic else Catalogue(V.rng, int(n))
        a["n"] = n
        bad = V.choice("fault", [None, None, "grid", "weights length", "weights sign"]) if not V.symbolic else None

        def mags(g, k):
            x = cat.x.copy()
            if bad == "grid" and k and cat.dm:
                x[int(g.integers(k))] += cat.dm * 0.3
            if k and g.random() < 0.15 and cat.dm == 0:
                x = np.round(x).astype(int)
            return x
        # symbolically the estimator always has an arbitrary past (nothing is known about its attributes)
        how = V.choice("variant", ["used before", "list"]) if V.symbolic else \
            V.choice("variant", ["new", "list", "used before"] + (["nan"] if self.nan else []))
        a["x"] = V.arr("x", n, gen=mags, nan=self.nan and how != "new", is_list=how == "list")
        a["mc"] = V.real("mc", gen=lambda g: cat.mc if g.random() < 0.95 else cat.mc + 100 * max(cat.dm, 0.1))
        a["dm"] = V.real("dm", lo=0, gen=lambda g: cat.dm)
        a["w"] = None
        if V.choice("weighted", [None, 1]):
            wn = n
            if V.symbolic:
                wn = V.int("wn", 0)
            elif bad == "weights length":
                wn = V.int("wn", 0, gen=lambda g: int(n) + int(g.integers(1, 3)))

            def ws(g, k):
                w = gen_weights(g, k)
                if bad == "weights sign" and k:
                    w[int(g.integers(k))] = -1.0
                return w
            a["w"] = V.arr("w", wn, gen=ws, is_list=V.choice("wlist", [False, True]) if not V.symbolic else False)
        a["t"], a["dmc"] = None, None
        if self.times:
            if V.choice("timed", [None, 1] if not V.symbolic or how != "list" else [None]):
                a["t"] = V.arr("t", n, gen=lambda g, k: cat.times())
            if V.choice("dmc given", [None, 1]):
                a["dmc"] = V.real("dmc", gen=lambda g: [0.0 if cat.dm == 0 else -0.1, cat.dmc() or 0.0][int(g.random() < 0.93)])
        a["reused"] = 1 if V.symbolic else False if how == "new" else int(V.rng.integers(10 ** 6))
        return a

    def effective_dmc(self, a):
        return a["dm"] if a["dmc"] is None else a["dmc"]

    def raises(self, S, a):
        x, w, n = a["x"], a["w"], a["n"]
        r = [(S.and_(n > 0, S.not_(on_grid(S, x, a["dm"]))), ValueError, "magnitudes not binned to delta_m")]
        if w is not None:
            r += [(S.not_(S.eq(S.len(w), n)), IndexError, "weights of another length"),
                  (S.exists(S.len(w), lambda i: S.at(w, i) < 0), ValueError, "negative weights")]
            r.append((self.no_mass(S, a), ZeroDivisionError, "weights without mass", "may"))
        if self.times:
            r.append((self.effective_dmc(a) < 0, ValueError, "negative dmc"))
        return r

    def no_mass(self, S, a):
        w = a["w"]
        if not S.symbolic and len(w) != a["n"]:
            return False
        ev = self.order(S, a)
        n, _, idx, _ = self.used(S, a, ev)
        return S.and_(S.eq(S.len(w), a["n"]), S.len(ev) > 0, S.eq(S.sum(n, lambda i: S.at(w, S.at(idx, i))), 0))

    def valid(self, S, a):
        return S.and_(*[S.not_(c) for c, *k in self.raises(S, a) if k[-1] != "may"])

    def pre(self, S, a):
        n, x = a["n"], a["x"]
        p = [S.or_(S.eq(n, 0), S.exists(n, lambda i: S.not_(S.isnan(S.at(x, i)))))]
        p.append(S.or_(S.eq(a["dm"], 0), a["dm"] > 1e-9))
        if self.part == "valid" and S.symbolic:
            p.append(self.valid(S, a))
        if a["t"] is not None:
            t = a["t"]
            p.append(S.forall(n, lambda i: S.forall(n, lambda j: S.implies(S.at(t, i) == S.at(t, j), S.eq(i, j))))
                     if S.symbolic else len(set(np.asarray(t).tolist())) == n)
        if not S.symbolic:
            # rounding must not decide which events are used
            for v in x:
                if abs(v - (a["mc"] - a["dm"] / 2)) < 1e-9 and v != a["mc"] - a["dm"] / 2:
                    p.append(False)
        return p

    def call(self, est, a):
        kw = {"weights": a["w"]}
        if self.times:
            kw.update(times=a["t"], dmc=a["dmc"])
        return est.calculate(a["x"], a["mc"], a["dm"], **kw)

    def run(self, a):
        est = make(get(self.cls), a)
        if self.part == "refusals" and a["sym"]:
            est._estimate = lambda: 0.0
        v = self.call(est, a)
        if self.part == "refusals":
            return v
        r = {"value": v, "b_value": est.b_value, "value property": est.value, "idx": est.idx,
             "magnitudes": est.magnitudes, "weights": est.weights, "n": est.n, "beta": est.beta}
        if self.times:
            r["times"] = est.times
        if not self.bootstrap and size(est.magnitudes) >= 2:
            r["std"], r["std_beta"] = est.std, est.std_beta
        return r
    bootstrap = False
    formula = staticmethod(mle)

    def used(self, S, a, comp):
        """(number, magnitudes f, positions, completeness of the magnitudes)"""
        return S.len(comp), (lambda i: S.at(a["x"], S.at(comp, i))), comp, a["mc"]

    def order(self, S, a):
        return time_order(S, a["x"], a["t"], a["mc"], a["dm"])

    def post(self, P, S, a, r):
        if self.part == "refusals":
            return
        x, w, dm = a["x"], a["w"], a["dm"]
        ev = self.order(S, a)
        if S.is_true(S.eq(S.len(ev), 0)):
            P.check("NaN without complete events", S.and_(S.isnan(r["value"]), S.isnan(r["b_value"])))
            P.eq("no events used", r["n"], S.num(0))
            P.eq("no magnitudes", S.len(r["magnitudes"]), S.num(0))
            P.eq("no positions", S.len(r["idx"]), S.num(0))
            return
        n, f, idx, mc = self.used(S, a, ev)
        if S.is_true(S.eq(n, 0)):
            return          # no pairs: not specified
        uw = None if w is None else S.select(w, idx)
        if w is not None and S.is_true(wtot(S, n, uw) <= 0):
            return          # weights without mass: not specified
        P.eq("positions of the used events", r["idx"], S.seq(n, lambda i: S.at(idx, i), kind="i"))
        P.eq("magnitudes used", r["magnitudes"], S.seq(n, f))
        P.eq("weights of the used events", r["weights"], uw)
        P.eq("number of used events", r["n"], n)
        if self.times:
            P.eq("times of the used events", r["times"], None if a["t"] is None else S.select(a["t"], idx))
        if not S.symbolic and abs(np.average([f(i) - mc for i in range(n)], weights=uw)) < 1e-9 and dm > 0:
            return          # the average is zero up to rounding
        b = self.formula(S, n, f, uw, mc, dm)
        P.eq("maximum likelihood b-value", r["value"], b)
        P.eq("b_value", r["b_value"], b)
        P.eq("value", r["value property"], b)
        P.eq("beta", r["beta"], b * S.log(10))
        if "std" in r:
            if w is not None and S.is_true(wtot(S, n, uw) <= 1):
                return
            # of the magnitudes, weights and b-value just shown to be the right ones
            um, uw, b = r["magnitudes"], r["weights"], r["b_value"]
            P.eq("std", r["std"], shi_bolt(S, um, b, uw, "b_value"))
            P.eq("std_beta", r["std_beta"], shi_bolt(S, um, b * S.log(10), uw, "beta"))


@unit("classic_b", ["C03", "C06", "C12", "C13", "C14"],
      BFUN + ["seismostats.analysis.bvalue.classic:ClassicBValueEstimator._estimate",
              "seismostats.analysis.bvalue.classic:_mle_estimator"])
class ClassicB(BUnit):
    cls = "analysis.bvalue:ClassicBValueEstimator"
    nan = True


@unit("utsu_b", ["C03", "C06", "C12", "C13", "C14"],
      BFUN + ["seismostats.analysis.bvalue.utsu:UtsuBValueEstimator._estimate"])
class UtsuB(BUnit):
    cls = "analysis.bvalue:UtsuBValueEstimator"
    nan = True

    @staticmethod
    def formula(S, n, f, w, mc, dm):
        return 1 / S.num(wmean(S, n, lambda i: f(i) - mc + dm / 2, w)) / S.log(10)


POS = "seismostats.analysis.bvalue.positive:BPositiveBValueEstimator."
MORE = "seismostats.analysis.bvalue.more_positive:BMorePositiveBValueEstimator."


class PairUnit(BUnit):
    times = True
    kind = "consecutive"
    max_paths = 1000
    split = {"weighted": 2, "timed": 2, "dmc given": 2}

    def used(self, S, a, ev):
        dm, dmc = a["dm"], self.effective_dmc(a)
        p = getattr(Pairs(), self.kind)(S, a["x"], ev, dmc, dm)
        pos = S.is_true(dm > 0)
        return p.n, (lambda l: binned(S, p.step(l), dm) if pos else p.step(l)), p.later, dmc

    def pre(self, S, a):
        p = super().pre(S, a)
        if not S.symbolic and all(p) and self.valid(S, a):
            ev = self.order(S, a)
            th = self.effective_dmc(a) - a["dm"] / 2
            y = np.asarray(a["x"], dtype=float)[ev]
            for i in range(len(y)):
                for j in range(i + 1, len(y)):
                    dd = y[j] - y[i] - th
                    if abs(dd) < 1e-9 and dd != 0:
                        p.append(False)
        return p


@unit("b_positive", ["C04", "C06", "C12", "C13", "C14"],
      BFUN + [POS + "calculate", POS + "_filter_magnitudes", POS + "_estimate"])
class BPositive(PairUnit):
    cls = "analysis.bvalue:BPositiveBValueEstimator"


@unit("b_more_positive", ["C05", "C06", "C12", "C13", "C14"],
      BFUN + [MORE + "calculate", MORE + "_filter_magnitudes", MORE + "_estimate"])
class BMorePositive(PairUnit):
    cls = "analysis.bvalue:BMorePositiveBValueEstimator"
    kind = "next_larger"
    bootstrap = True


for _u, _p in ((ClassicB, ["C03"]), (UtsuB, ["C03"]), (BPositive, ["C04"]), (BMorePositive, ["C05"])):
    unit(_u.uid + "_refusals", _p + ["C12", "C13"], BFUN + [MORE + "calculate", POS + "calculate"], cases=60)(
        type(_u.__name__ + "Refusals", (_u,), {"part": "refusals"}))


# ---- find_next_larger -----------------------------------------------------

def _outer(S, k, L):
    y, dm, dmc = L.pre["magnitudes"], L.pre["delta_m"], L.pre["dmc"]
    n = S.len(y)
    return State({"idx_next_larger": S.seq(n, lambda j: S.ite(
        j < k, S.real(next_larger(S, y, j, dmc, dm)), S.real(S.num(0))))})


def _inner(S, k, L):
    y, dm, dmc, ii = L.pre["magnitudes"], L.pre["delta_m"], L.pre["dmc"], L.pre["ii"]
    n = S.len(y)
    f = S.first(ii + 1, n, lambda i: S.at(y, i) - S.at(y, ii) >= dmc - dm / 2)
    return State({"idx_next_larger": L.pre["idx_next_larger"]}, lambda cur: [f >= ii + 1 + k])


@unit("find_next_larger", ["C05", "C07", "C14"], ["seismostats.analysis.bvalue.utils:find_next_larger"], cases=200)
class FindNextLarger(Unit):
    loops = {("find_next_larger", 0): _outer, ("find_next_larger", 1): _inner}

    def inputs(self, V):
        n = V.int("n", 1, 25)
        cat = None if V.symbolic else Catalogue(V.rng, int(n))
        return {"y": V.arr("y", n, gen=lambda g, k: cat.x), "dm": V.real("dm", lo=0, gen=lambda g: cat.dm),
                "dmc": V.choice("dmc given", [None, 1]) and
                V.real("dmc", lo=0, gen=lambda g: cat.dmc() or 0.0)}

    def pre(self, S, a):
        p = [S.len(a["y"]) >= 1]
        if not S.symbolic:
            th = (a["dm"] if a["dmc"] is None else a["dmc"]) - a["dm"] / 2
            dd = np.abs(np.subtract.outer(a["y"], a["y"]) - th)
            p.append(not np.any((dd < 1e-9) & (dd > 0)))
        return p

    def run(self, a):
        return get("analysis.bvalue.utils:find_next_larger")(a["y"], a["dm"], a["dmc"])

    def post(self, P, S, a, r):
        y, dm = a["y"], a["dm"]
        dmc = dm if a["dmc"] is None else a["dmc"]
        P.eq("first later event larger by dmc, 0 if none", r,
             S.seq(S.len(y), lambda j: next_larger(S, y, j, dmc, dm), kind="i"))


@stub("seismostats.analysis.bvalue.utils:find_next_larger", by=["find_next_larger"])
def _fnl(S, A, ctx):
    y, dm = A.magnitudes, A.delta_m
    dmc = dm if A.dmc is None else A.dmc
    return S.seq(S.len(y), lambda j: next_larger(S, y, j, dmc, dm), kind="i")
