"""C10: completeness by b-value stability."""
import numpy as np

from pyvc.core import Ctx
from pyvc.runtime import Fresh, State
from pyvc.spec import CON, SYM
from .common import Unit, get, mod, unit
from .c01_binning import binned
from .c09_ks import (METHODS, B, Draws, KsSample, MODULE, abstract_estimator, candidates, default_candidates, replaced, require)
from .estimators import on_grid

FQ = "seismostats.analysis.estimate_mc:"


def steps_of(rng, dm):
    """bins in the stability range; None where rounding decides"""
    q = rng / dm
    if abs(q - round(q)) < 1e-9:
        return int(round(q))
    return int(np.ceil(q))


def unambiguous(rng, dm):
    return len(np.arange(0, rng, dm)) == steps_of(rng, dm)


@unit("estimate_mc_b_stability", ["C10", "C13", "C14"], [FQ + "estimate_mc_b_stability"], symbolic=False, cases=300,
      why_bounded="the whole procedure with the real estimators; its loops are proved over the estimator's contract "
                  "(estimate_mc_b_stability_loop)")
class Stability(Unit):
    def inputs(self, V):
        g = V.rng
        s = KsSample(g, int(g.integers(2, 150)), above=False)
        a = {"x": V.arr("x", len(s.x), gen=lambda g, k: s.x.copy()), "dm": s.dm}
        V.values.update(dm=s.dm)
        a["mcs"] = None
        if V.choice("candidates given", [True, True, False]):
            c = candidates(g, s.dm, s.x)
            if g.random() < 0.5:
                c = np.unique(c)
            a["mcs"] = V.arr("mcs", len(c), gen=lambda g, k: c, is_list=V.choice("list", [True, False]))
        a["range"] = V.choice("stability range in bins", [1, 1, 2, 3, 5, 2.5]) * s.dm
        a["stop"] = V.choice("stop_when_passed", [True, False])
        a["method"] = V.choice("method", METHODS[:3])
        a["kw"] = {}
        if "Pos" in a["method"] and V.choice("dmc given", [True, False]):
            a["kw"]["dmc"] = s.dm * 2
        return a

    def pre(self, S, a):
        x, dm = a["x"], a["dm"]
        return [unambiguous(a["range"], dm), a["mcs"] is not None or
                len(np.arange(x.min(), x.max(), dm)) == int(round((x.max() - x.min()) / dm))]

    def candidates(self, a):
        x, dm, st = a["x"], a["dm"], steps_of(a["range"], a["dm"])
        if a["mcs"] is None:
            k = int(round((x.max() - x.min()) / dm))
            c = x.min() + dm * np.arange(k)
            return c[:k - st + 1] if k > st else c[:0]
        c = np.asarray(a["mcs"], dtype=float)
        return c[c + a["range"] <= x.max()]

    def raises(self, S, a):
        return [(len(self.candidates(a)) == 0, ValueError, "range smaller than the stability range")]

    def run(self, a):
        return get(MODULE + ":estimate_mc_b_stability")(
            a["x"], a["dm"], mcs_test=a["mcs"], stop_when_passed=a["stop"], b_method=get(B + a["method"]),
            stability_range=a["range"], **a["kw"])

    def post(self, P, S, a, r):
        best, info = r
        x, dm, st = a["x"], a["dm"], steps_of(a["range"], a["dm"])

        def est(mc):
            e = get(B + a["method"])()
            e.calculate(x[x >= mc - dm / 2], mc, dm, **a["kw"])
            return e.b_value, e.std
        c = self.candidates(a)
        bs, rs = [], []
        for mc in c:
            b, s = est(mc)
            bs.append(b)
            rs.append(abs(np.mean([est(mc + j * dm)[0] for j in range(st)]) - b) / s)
        if any(abs(q - 1) < 1e-9 for q in rs):
            return
        ok = [i for i, q in enumerate(rs) if q <= 1]
        m = ok[0] + 1 if ok and a["stop"] else len(c)
        P.eq("tested candidates", np.array(info["mcs_tested"], dtype=float), c[:m])
        P.eq("one b-value per tested candidate", np.array(info["b_values_tested"], dtype=float), np.array(bs[:m], dtype=float))
        P.eq("one ratio per tested candidate", np.array(info["diff_bs"], dtype=float), np.array(rs[:m], dtype=float))
        if not ok:
            P.check("None without a stable candidate", best is None and info["best_b_value"] is None)
            return
        i = ok[0] if a["stop"] else min(ok, key=lambda i: rs[i])
        if not a["stop"] and sorted(rs[j] for j in ok)[:2].count(rs[i]) == 2 or \
                len([j for j in ok if abs(rs[j] - rs[i]) < 1e-9]) > 1:
            P.check("a candidate of smallest ratio",
                    any(abs(best - c[j]) < 1e-9 for j in ok if abs(rs[j] - rs[i]) < 1e-9) if best is not None else False)
            return
        P.eq("the stable candidate", best, c[i])
        P.eq("its b-value", info["best_b_value"], bs[i])


class Spec:
    def __init__(self, S, a, c, K):
        self.S, self.a, self.c, self.K = S, a, c, K
        self.top = S.max(S.len(a["x"]), lambda i: S.at(a["x"], i))

    def avg(self, mc):
        S, a = self.S, self.a
        at = lambda l: mc + S.real(l) * a["dm"]
        s = S.sum(self.K, lambda l: S.ite(at(l) <= self.top, a["bs"](at(l)), S.real(S.num(0))))
        return s / S.real(S.count(self.K, lambda l: at(l) <= self.top))

    def ratio(self, mc):
        return self.S.abs(self.avg(mc) - self.a["bs"](mc)) / self.a["std"](mc)


def _outer(S, k, L):
    u = _outer
    a, c = u.a, lambda i: L.pre["mcs_test"][i]
    sp = Spec(S, a, c, S.len(npshim_arange(a)))
    u.spec = sp
    ra = lambda i: sp.ratio(c(i))
    some = S.exists(k, lambda i: ra(i) <= 1)
    vars = {"b_values_test": S.seq(k, lambda i: a["bs"](c(i)), is_list=True),
            "diff_bs": S.seq(k, ra, is_list=True)}
    if a["stop"]:
        vars.update(best_mc=None, best_b_value=None, value=False, mcs_test=L.pre["mcs_test"])
        return State(vars, lambda cur: [S.forall(k, lambda i: ra(i) > 1)])
    vars["mcs_test"] = L.pre["mcs_test"]
    if S.is_true(some):
        vars.update(best_mc=Fresh(), best_b_value=Fresh(), value=True)
        return State(vars, lambda cur: [S.exists(k, lambda i: best(S, a, ra, c, k, i, cur["best_mc"], cur["best_b_value"]))]
                     if cur["best_mc"] is not None else [S.false])
    vars.update(best_mc=None, best_b_value=None, value=False)
    return State(vars, lambda cur: [S.forall(k, lambda i: ra(i) > 1)])


def best(S, a, ra, c, k, i, mc, b):
    return S.and_(S.eq(mc, c(i)), S.eq(b, a["bs"](c(i))), ra(i) <= 1, S.forall(k, lambda j: ra(i) <= ra(j)))


def _inner(S, k, L):
    a, m = _outer.a, L.pre["mc_plus"]
    top = S.max(S.len(a["x"]), lambda i: S.at(a["x"], i))
    for name, t in (("the candidate is not above the largest magnitude", L.pre["mc"] <= top),
                    ("a stability range has a bin", S.len(npshim_arange(a)) > 0),
                    ("the candidate itself is in its stability range", L.n > 0)):
        require(name, t)
        Ctx.cur.assume(t.t)
    return State({"b_ex": S.seq(k, lambda i: a["bs"](m[i]), is_list=True)})


def npshim_arange(a):
    from pyvc import npshim
    return npshim.NP["arange"](0, a["range"], a["dm"])


@unit("estimate_mc_b_stability_loop", ["C10", "C13", "C14"], [FQ + "estimate_mc_b_stability"], cases=300)
class StabilityLoop(Unit):
    """the procedure over the contract of the estimator"""
    loops = {("estimate_mc_b_stability", 0): _outer, ("estimate_mc_b_stability", 1): _inner}
    split = {"candidates given": 2}

    def inputs(self, V):
        n = V.int("n", 1, 20)
        s = None if V.symbolic else KsSample(V.rng, int(n), above=False)
        a = {"x": V.arr("x", n, gen=lambda g, k: s.x.copy()), "dm": V.real("dm", gt=0, gen=lambda g: s.dm)}
        a["mcs"] = None
        if V.choice("candidates given", [True, False]):
            c = None if V.symbolic else candidates(V.rng, s.dm, s.x)
            a["mcs"] = V.arr("mcs", V.int("m", 0, gen=lambda g: len(c)), gen=lambda g, k: c)
        a["range"] = V.real("range", gt=0, gen=lambda g: [1, 1, 2, 3, 2.5][int(g.integers(5))] * s.dm)
        # without stopping, the choice among the stable candidates is beyond the solvers: bounded there
        a["stop"] = True if V.symbolic else V.choice("stop_when_passed", [True, False])
        a["extra"] = V.real("extra")
        a["bs"] = Draws(V, "b", [1.0, 0.8, 2.0, 1.2] + ([] if V.symbolic else [np.nan]))
        a["std"] = Draws(V, "std", [0.1, 0.2, 0.5, 1.0] + ([] if V.symbolic else [np.nan]))
        _outer.a = a
        return a

    def pre(self, S, a):
        p = [a["dm"] > 1e-9, on_grid(S, a["x"], a["dm"])]
        return p if S.symbolic else p + [unambiguous(a["range"], a["dm"])]

    def raises(self, S, a):
        return [(S.eq(self.candidates(S, a)[0], 0), ValueError, "range smaller than the stability range")]

    def steps(self, S, a):
        return S.len(npshim_arange(a)) if S.symbolic else steps_of(a["range"], a["dm"])

    def candidates(self, S, a):
        x, st = a["x"], self.steps(S, a)
        if a["mcs"] is None:
            if S.symbolic:
                lo, hi = (f(S.len(x), lambda i: S.at(x, i)) for f in (S.min, S.max))
                from pyvc import npshim
                M = S.len(npshim.NP["arange"](lo, hi, a["dm"]))
                n = S.ite(M > st, M - st + 1, S.num(0))
                return n, lambda i: S.at(a["grid"], i)
            lo = float(min(x))
            M = len(np.arange(lo, max(x), a["dm"]))
            return max(M - st + 1, 0) if M > st else 0, lambda i: binned(S, lo + i * a["dm"], a["dm"])
        hi = S.max(S.len(x), lambda i: S.at(x, i))
        c = S.select(a["mcs"], S.where(S.len(a["mcs"]), lambda i: S.at(a["mcs"], i) + a["range"] <= hi))
        return S.len(c), lambda i: S.at(c, i)

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        names = {}
        if S.symbolic and a["mcs"] is None:
            real, grid = mod(MODULE).bin_to_precision, default_candidates(S, a, bounded=True)

            def bin_to_precision(x, delta_x=None):
                return real(x, delta_x) if "grid" in a else grid(x, delta_x)
            names["bin_to_precision"] = bin_to_precision
        with replaced(MODULE, **names):
            return get(MODULE + ":estimate_mc_b_stability")(
                a["x"], a["dm"], mcs_test=a["mcs"], stop_when_passed=a["stop"],
                b_method=abstract_estimator(S, a, {"b_value": a["bs"], "std": a["std"]}),
                stability_range=a["range"], extra=a["extra"])

    def post(self, P, S, a, r):
        mc, info = r
        m, c = self.candidates(S, a)
        sp = Spec(S, a, c, self.steps(S, a))
        ra = lambda i: sp.ratio(c(i))
        f = S.first(0, m, lambda i: ra(i) <= 1)
        k = S.ite(f < m, f + 1, m) if a["stop"] else m
        P.eq("tested candidates", info["mcs_tested"], S.seq(k, c, is_list=True))
        P.eq("b-values", info["b_values_tested"], S.seq(k, lambda i: a["bs"](c(i)), is_list=True))
        P.eq("ratios", info["diff_bs"], S.seq(k, ra, is_list=True))
        if not S.is_true(f < m):
            P.check("None without a stable candidate", mc is None and info["best_b_value"] is None)
            return
        if mc is None:
            P.check("a stable candidate is returned", False)
            return
        b = info["best_b_value"]
        if a["stop"]:
            P.eq("the first stable candidate", mc, binned(S, c(f), a["dm"]))
            P.eq("its b-value", b, a["bs"](c(f)))
        else:
            P.check("a stable candidate of smallest ratio, with its b-value", S.exists(m, lambda i: S.and_(
                S.eq(mc, binned(S, c(i), a["dm"])), S.eq(b, a["bs"](c(i))), ra(i) <= 1,
                S.forall(m, lambda j: S.or_(S.isnan(ra(j)), ra(i) <= ra(j))))))


@unit("default_candidates_bounded", ["C09", "C10"], ["seismostats.utils.binning:bin_to_precision"], cases=200)
class DefaultCandidates(Unit):
    """candidates from the smallest to the largest magnitude stay within them after binning"""
    def inputs(self, V):
        n = V.int("n", 1, 20)
        a = {"dm": V.real("dm", gt=0, gen=lambda g: [0.1, 0.2, 0.5, 1.0, 0.01][int(g.integers(5))]),
             "lo": V.real("anchor", gen=lambda g: round(float(g.normal() * 3), 2)), "sym": V.symbolic}
        a["k"] = V.arr("k", n, kind="i", lo=0, gen=lambda g, k: g.integers(0, 30, k))
        return a

    def pre(self, S, a):
        return [a["dm"] > 1e-9]

    def run(self, a):
        S = SYM if a["sym"] else CON
        x = S.seq(S.len(a["k"]), lambda i: a["lo"] + S.real(S.at(a["k"], i)) * a["dm"])
        xp = mod("utils.binning").np
        a["hi"] = xp.max(x)
        return get("utils.binning:bin_to_precision")(xp.arange(xp.min(x), a["hi"], a["dm"]), a["dm"])

    def post(self, P, S, a, r):
        if not S.symbolic and len(r) != round((a["hi"] - a["lo"]) / a["dm"] - min(a["k"])):
            return      # the number of candidates is decided by rounding
        P.forall("no candidate above the largest magnitude", S.len(r),
                 lambda i: S.at(r, i) <= a["hi"] + (0 if S.symbolic else 1e-9))
