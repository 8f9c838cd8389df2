"""C16: constant-number partitioning and the values of the pieces."""
import numpy as np

from pyvc.core import Ctx, SArr, SNum, num
from pyvc.runtime import State
from pyvc.spec import CON, SYM
from .common import Unit, get, mod, unit
from .c09_ks import require

FQ = "seismostats.analysis.b_significant:"
M = "analysis.b_significant"


@unit("cut_constant_idx", ["C16", "C13", "C14"], [FQ + "cut_constant_idx"], cases=300)
class Cut(Unit):
    """consecutive pieces, cut at offset, offset + n, offset + 2n, ..."""

    def inputs(self, V):
        return {"v": V.arr("v", V.int("length", 0, 40), is_list=V.choice("list", [False, True])),
                "n": V.int("n", 1, 12), "o": V.int("offset", 0, 12)}

    def raises(self, S, a):
        return [(a["o"] >= a["n"], ValueError, "offset not smaller than n")]

    def run(self, a):
        return get(M + ":cut_constant_idx")(a["v"], a["n"], offset=a["o"])

    def post(self, P, S, a, r):
        idx, pieces = r
        v, n, o, L = a["v"], a["n"], a["o"], S.len(a["v"])
        first = S.ite(S.eq(o, 0), n, o)
        K = S.len(idx)
        at = lambda i: first + i * n
        P.forall("cut at offset, offset + n, ...", K, lambda i: S.eq(S.at(idx, i), at(i)))
        P.check("no cut is missing or outside", S.and_(S.or_(S.eq(K, 0), at(K - 1) < L), at(K) >= L))
        P.eq("one piece more than cuts", S.len(pieces), K + 1)
        lo = lambda i: S.ite(S.eq(i, 0), S.num(0), at(i - 1))
        hi = lambda i: S.ite(S.eq(i, K), L, at(i))
        P.forall("consecutive pieces", K + 1, lambda i: S.eq(S.len(pieces[i]), hi(i) - lo(i)))
        P.forall("in the order of the sequence", K + 1, lambda i: S.forall(
            hi(i) - lo(i), lambda j: S.eq(S.at(pieces[i], j), S.at(v, lo(i) + j))))
        P.forall("an inner piece has n events", K + 1, lambda i: S.or_(
            S.eq(i, 0), S.eq(i, K), S.eq(S.len(pieces[i]), n)))


class Pieces:
    """an arbitrary list of pieces (magnitudes and times of the same lengths)"""

    def __init__(self, V, n, dm):
        self.n = n
        if V.symbolic:
            c = Ctx.cur
            import z3
            ln = c.func("length", z3.IntSort(), z3.IntSort())
            c.fact(lambda i: ln(i) >= 0, 1, {"length"}, "lengths")
            m, t = (c.func(q, z3.IntSort(), z3.IntSort(), z3.RealSort()) for q in ("m", "t"))
            seq = lambda d: SArr(num(n).t, lambda j: SArr(ln(j), lambda i: SNum(d(j, i)), "f"), "o", True)
            self.mags, self.times = seq(m), seq(t)
            return
        g = V.rng
        ks = [int(g.integers(0, 30)) if g.random() < 0.85 else 0 for _ in range(int(n))]
        self.mags = [np.round(np.round(g.exponential(0.6, k) / dm) * dm, 6) + 0.0 for k in ks]
        self.times = [g.permutation(k) * 1.5 for k in ks]


def _loop(S, k, L):
    a = _loop.a
    a["k"] = k
    empty = lambda i: S.eq(S.len(a["p"].mags[i]), 0)
    val = lambda f: S.seq(L.n, lambda i: S.ite(i < k, S.ite(empty(i), S.nan, f(i)), S.real(S.num(0))))
    return State({"values": val(lambda i: S.fn("value", i)), "stds": val(lambda i: S.fn("std", i)),
                  "n_ms": S.seq(L.n, lambda i: S.ite(S.and_(i < k, S.not_(empty(i))), count(i), S.real(S.num(0))))})


def count(i):
    return SYM.real(SYM.toint(SYM.floor(SYM.fn("n", i))))


def fake(S, a, base):
    """an estimator of which only the contract is known: it must be given piece k ordered by time"""
    def given(mags, mc, delta_m, times=None, scaling=None, kw=None):
        k = a["k"] if S.symbolic else a["calls"]
        if not S.symbolic:
            while len(a["p"].mags[k]) == 0:
                k += 1
            a["calls"] = k + 1
        m, t = a["p"].mags[k], a["p"].times[k]
        order = S.argsort(t)
        require("the estimator is given the events of the piece in time order", S.eq(mags, S.select(m, order)))
        require("the estimator is given the completeness of the piece", S.eq(mc, a["mc_of"](k)))
        require("the estimator is given delta_m", S.eq(delta_m, a["dm"]))
        require("the estimator is given the keyword arguments",
                set(kw) == {"extra"} and S.eq(kw["extra"], a["extra"]))
        if times is not None:
            require("the estimator is given the times of the piece", S.eq(times, S.select(t, order)))
        if scaling is not None:
            require("the estimator is given the scaling of the piece", S.eq(scaling, a["scaling_of"](k)))
        if S.symbolic:
            return SYM.fn("value", k), SYM.fn("std", k), count(k)
        return a["results"][k]

    class Common:
        value = property(lambda self: self.r[0])
        std = property(lambda self: self.r[1])
        n = property(lambda self: self.r[2])

        def __init__(self):
            pass

        def _estimate(self):
            raise NotImplementedError

        def _filter_magnitudes(self):
            raise NotImplementedError

        _weights_supported = False
    if base == "b":
        class Fake(Common, mod("analysis.bvalue.base").BValueEstimator):
            def calculate(self, magnitudes, mc, delta_m, **kw):
                self.r = given(magnitudes, mc, delta_m, kw=kw)
    elif base == "a":
        class Fake(Common, mod("analysis.avalue.base").AValueEstimator):
            def calculate(self, magnitudes, mc, delta_m, scaling_factor=None, **kw):
                self.r = given(magnitudes, mc, delta_m, scaling=scaling_factor, kw=kw)
    else:
        class Fake(Common, mod("analysis.avalue.base").AValueEstimator):
            def calculate(self, magnitudes, times, mc, delta_m, scaling_factor=None, **kw):
                self.r = given(magnitudes, mc, delta_m, times=times, scaling=scaling_factor, kw=kw)
    return Fake


@unit("values_from_partitioning", ["C16", "C13", "C14"], [FQ + "values_from_partitioning"], cases=300)
class Values(Unit):
    """each piece is evaluated on its own, over the contract of the estimator"""
    loops = {("values_from_partitioning", 0): _loop}

    def inputs(self, V):
        n = V.int("pieces", 0, 8)
        dm = V.real("dm", gt=0, gen=lambda g: [0.1, 0.2, 0.5][int(g.integers(3))])
        a = {"dm": dm, "p": Pieces(V, n, dm), "n": n, "extra": V.real("extra"), "calls": 0}
        a["kind"] = V.choice("estimator", ["b", "a", "at"])
        if V.choice("one mc", [True, False]):
            a["mc"] = V.real("mc")
            a["mc_of"] = lambda i: a["mc"]
        else:
            a["mc"] = V.arr("mcs", n, is_list=V.choice("mc list", [True, False]))
            a["mc_of"] = lambda i: (SYM if V.symbolic else CON).at(a["mc"], i)
        a["scaling"], a["scaling_of"] = None, lambda i: 1
        if a["kind"] != "b" and V.choice("scaling given", [True, False]):
            a["scaling"] = V.arr("scaling", n, is_list=True)
            a["scaling_of"] = lambda i: (SYM if V.symbolic else CON).at(a["scaling"], i)
        if not V.symbolic:
            a["results"] = [(float(V.rng.normal()), float(V.rng.random()), int(V.rng.integers(0, 30)))
                            for _ in range(int(n))]
        _loop.a = a
        return a

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        a["calls"] = 0
        F = fake(S, a, a["kind"])
        kw = {} if a["scaling"] is None else {"list_scaling": a["scaling"]}
        return get(M + ":values_from_partitioning")(a["p"].mags, a["p"].times, a["mc"], a["dm"], method=F,
                                                    extra=a["extra"], **kw)

    def post(self, P, S, a, r):
        n = a["n"]
        empty = lambda i: S.eq(S.len(a["p"].mags[i]), 0)
        if S.symbolic:
            f = [lambda i: SYM.fn("value", i), lambda i: SYM.fn("std", i), count]
        else:
            f = [lambda i, j=j: a["results"][i][j] for j in range(3)]
        for j, name in enumerate(("value", "uncertainty")):
            P.eq(f"one {name} per piece, NaN for an empty one", r[j],
                 S.seq(n, lambda i: S.ite(empty(i), S.nan, f[j](i))))
        P.eq("one count per piece", r[2], S.seq(n, lambda i: S.ite(empty(i), S.num(0), S.toint(f[2](i)))))


METHODS = ["ClassicBValueEstimator", "UtsuBValueEstimator", "BPositiveBValueEstimator", "BMorePositiveBValueEstimator",
           "ClassicAValueEstimator", "APositiveAValueEstimator", "AMorePositiveAValueEstimator"]


def method(name):
    return getattr(mod("analysis"), name)


@unit("values_from_partitioning_real", ["C16", "C13", "C14"], [FQ + "values_from_partitioning"], symbolic=False,
      why_bounded="the real estimators in place of their contract; values_from_partitioning proves the function over it",
      cases=150)
class RealValues(Unit):
    def inputs(self, V):
        g = V.rng
        dm = [0.1, 0.2, 0.5][int(g.integers(3))]
        n = int(g.integers(0, 6))
        a = {"dm": dm, "p": Pieces(V, n, dm), "n": n}
        V.values.update(dm=dm, mags=a["p"].mags, times=a["p"].times)
        a["m"] = V.choice("method", METHODS)
        a["mc"] = V.choice("mc", [0.0, 0, 1.0, None])
        if a["mc"] is None:
            a["mc"] = [float(np.round(int(g.integers(0, 6)) * dm, 6)) for _ in range(n)]
            V.values["mcs"] = a["mc"]
        return a

    def run(self, a):
        a["kw"] = {"b_value": 1.1} if "AMore" in a["m"] else {}
        return get(M + ":values_from_partitioning")(a["p"].mags, a["p"].times, a["mc"], a["dm"], method=method(a["m"]),
                                                    **a["kw"])

    def post(self, P, S, a, r):
        for i in range(a["n"]):
            x, t = a["p"].mags[i], a["p"].times[i]
            if len(x) == 0:
                P.check("an empty piece has no value", np.isnan(r[0][i]) and np.isnan(r[1][i]) and r[2][i] == 0)
                continue
            o = np.argsort(t)
            e = method(a["m"])()
            kw = dict(a["kw"])
            if "Positive" in a["m"]:
                kw["times"] = t[o]
            mc = a["mc"] if isinstance(a["mc"], (int, float)) else a["mc"][i]
            e.calculate(x[o], mc=mc, delta_m=a["dm"], **kw)
            try:
                want = (e.value, e.std, e.n)
            except (ValueError, TypeError):
                continue
            if "BPos" in a["m"] or "BMore" in a["m"]:
                e2 = method(a["m"])()
                e2.calculate(x[o], mc=mc, delta_m=a["dm"])
                want = (e2.value, e2.std, e2.n)
            P.eq("value of the piece", (r[0][i], r[2][i]), (want[0], want[2]))
            if want[1] is not None and "BMore" not in a["m"]:       # bootstrapped there
                P.eq("uncertainty of the piece", r[1][i], want[1])


@unit("b_significant_1D", ["C16", "C13", "C14"], [FQ + "b_significant_1D"], symbolic=False, cases=150,
      why_bounded="the real callees and scipy's normal distribution in place of their contracts; "
                  "b_significant_1D_procedure proves the function over them")
class Significant(Unit):
    def inputs(self, V):
        g = V.rng
        dm = [0.1, 0.2, 0.5][int(g.integers(3))]
        n = int(g.integers(0, 160))
        x = np.round(np.round(g.exponential(0.8, n) / dm) * dm, 6) + 0.0
        a = {"dm": dm, "x": V.arr("x", n, gen=lambda g, k: x), "n": n}
        a["t"] = V.arr("t", n, gen=lambda g, k: g.permutation(k) * 1.25)
        a["xv"] = None
        if V.choice("x_variable given", [True, False]):
            a["xv"] = V.arr("xv", n, gen=lambda g, k: g.permutation(k) * 0.5 - 3)
        a["mc"] = V.choice("mc", [0.0, 0, 0.5 if dm == 0.5 else 0.2, None])
        if a["mc"] is None:
            a["mc"] = V.arr("mcs", n, gen=lambda g, k: np.round(g.integers(0, 4, k) * dm, 6))
        a["nm"] = V.int("n_m", 1, 30)
        a["min"] = V.int("min_num", 1, 12)
        a["m"] = V.choice("method", METHODS[:3] + METHODS[4:5])
        a["cons"] = V.choice("conservative", [True, False])
        return a

    def pre(self, S, a):
        return [a["n"] > 0 or True]

    def raises(self, S, a):
        return [(a["nm"] < a["min"], ValueError, "n_m smaller than min_num")]

    def run(self, a):
        return get(M + ":b_significant_1D")(a["x"], a["mc"], a["dm"], a["t"], a["nm"], min_num=a["min"],
                                            method=method(a["m"]), x_variable=a["xv"], conservative=a["cons"])

    def post(self, P, S, a, r):
        from scipy.stats import norm
        x, t, dm, nm = np.array(a["x"], dtype=float), np.array(a["t"], dtype=float), a["dm"], int(a["nm"])
        mc = np.full(len(x), float(a["mc"])) if isinstance(a["mc"], (int, float)) else np.array(a["mc"], dtype=float)
        o = np.arange(len(x)) if a["xv"] is None else np.argsort(a["xv"], kind="stable")
        x, t, mc = x[o], t[o], mc[o]
        if any(abs(u - v + dm / 2) < 1e-9 for u, v in zip(x, mc)):
            return
        k = x >= mc - dm / 2
        x, t, mc = x[k], t[k], mc[k]
        if len(x) / nm < 3:
            P.check("fewer than three pieces", all(np.isnan(q) for q in r))
            return
        rows = []
        for off in range(nm):
            vals, big = [], 0
            s = off
            while s + nm <= len(x):
                sl = slice(s, s + nm)
                q = np.argsort(t[sl], kind="stable")
                e = method(a["m"])()
                e.calculate(x[sl][q], mc=float(max(mc[sl])), delta_m=dm)
                vals.append(e.value if e.n >= a["min"] else np.nan)
                big += e.n >= a["min"]
                if np.isinf(e.value):
                    return      # all magnitudes of a piece at its completeness
                s += nm
            v = np.array(vals, dtype=float)
            if big < 3:
                rows.append((np.nan, np.nan, np.nan))
                continue
            m = np.nanmean(v)
            d = v - m
            pr = ~np.isnan(d[1:]) & ~np.isnan(d[:-1])
            npair, cnt = pr.sum(), np.sum(~np.isnan(v))
            ac = np.sum((d[1:] * d[:-1])[pr])
            rows.append(((cnt - 1) / npair * ac / np.nansum(d * d) if npair else np.nan, cnt, npair))
        q = np.array(rows, dtype=float)
        if np.isnan(q[:, 1]).all() or np.nanmean(q[:, 2]) <= 2:
            P.check("too few pairs", all(np.isnan(z) for z in r))
            return
        mac, mn, mp = np.nanmean(q[:, 0]), np.nanmean(q[:, 1]), np.nanmean(q[:, 2])
        std = (mp - 2) / (mp * np.sqrt(mp)) * (1 if a["cons"] else 0.81)
        P.eq("mean autocorrelation over all offsets", r[1], mac)
        P.eq("its expected mean", r[2], -1 / mn)
        P.eq("its standard deviation", r[3], std)
        P.eq("p-value", r[0], 1 - norm(loc=-1 / mn, scale=std).cdf(mac))
