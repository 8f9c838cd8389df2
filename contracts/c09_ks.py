"""C09: Kolmogorov-Smirnov test of completeness."""
import numpy as np

from pyvc import npshim
from pyvc.core import Ctx, Limit, SNum, bool_term, sym_array
from pyvc.runtime import State
from pyvc.spec import CON, SYM
from .common import LN10, Unit, gen_weights, get, mod, unit
from .c01_binning import binned
from .estimators import on_grid

FQ = "seismostats.analysis.estimate_mc:"
B = "analysis.bvalue:"
MODULE = "analysis.estimate_mc"


@unit("cdf_discrete_exp", ["C09", "C14"], [FQ + "cdf_discrete_exp"], cases=120)
class Cdf(Unit):
    """theoretical distribution: P(M <= x) = 1 - exp(-beta (x + delta_m - mc)) on the distinct values"""

    def inputs(self, V):
        n = V.int("n", 1, 15)
        return {"x": V.arr("x", n, gen=lambda g, k: np.round(g.integers(-5, 8, k) * 0.1, 1)),
                "mc": V.real("mc"), "dm": V.real("dm", lo=0, hi=1), "beta": V.real("beta", gt=0, hi=5)}

    def run(self, a):
        return get(MODULE + ":cdf_discrete_exp")(a["x"], a["mc"], a["dm"], a["beta"])

    def post(self, P, S, a, r):
        x, (v, y) = a["x"], r
        n, m = S.len(x), S.len(v)
        P.eq("as many probabilities as values", S.len(y), m)
        P.forall("ascending distinct values", m - 1, lambda i: S.at(v, i) < S.at(v, i + 1))
        P.forall("every value is a magnitude", m, lambda i: S.exists(n, lambda j: S.eq(S.at(x, j), S.at(v, i))))
        P.forall("every magnitude is a value", n, lambda j: S.exists(m, lambda i: S.eq(S.at(x, j), S.at(v, i))))
        P.eq("probabilities", y, S.seq(m, lambda i: 1 - S.exp(-a["beta"] * (S.at(v, i) + a["dm"] - a["mc"]))))


def ks_distance(x, w, mc, dm, b):
    """largest distance between the empirical and the theoretical distribution over the bins"""
    x = np.asarray(x, dtype=float)
    w = np.ones(len(x)) if w is None else np.asarray(w, dtype=float)
    k = np.round((x - mc) / dm).astype(int)
    th = 1 - np.exp(-b * LN10 * (np.arange(k.max() + 1) + 1) * dm)
    emp = np.array([w[k <= j].sum() for j in range(k.max() + 1)]) / w.sum()
    return float(np.max(np.abs(emp - th)))


def considered(x, mc, b, n):
    """simulated distances are looked at up to here"""
    return np.log10(len(x) * n * 1000) / b + mc


class Recorder:
    """the simulation used by the test, with the samples it gave"""

    def __init__(self):
        self.mod = mod(MODULE)
        self.calls = []

    def __enter__(self):
        self.real = getattr(self.mod, "simulate_magnitudes_binned", None)
        if self.real is None:
            return self

        def rec(*a, **k):
            r = self.real(*a, **k)
            self.calls.append((a, k, np.array(r)))
            return r
        self.mod.simulate_magnitudes_binned = rec
        return self

    def __exit__(self, *_):
        if self.real is not None:
            self.mod.simulate_magnitudes_binned = self.real


class KsSample:
    """binned sample on the absolute grid, at or above mc"""

    def __init__(self, g, n, above=True):
        self.dm = [0.1, 0.2, 0.5, 0.05, 0.01, 1.0][int(g.integers(6))]
        k0 = int(g.integers(-12, 30)) if g.random() < 0.8 else 0
        self.mc = round(k0 * self.dm, 6)
        b = [0.7, 1.0, 1.5, 2.0][int(g.integers(4))]
        k = np.floor(g.exponential(1 / (b * LN10), n) / self.dm + g.choice([0.0, 0.5])).astype(int)
        if g.random() < 0.15:
            k[:] = k[0] if n else 0
        if n and g.random() < 0.5:
            k[int(g.integers(n))] = 0
        if not above and n:
            low = g.random(n) < 0.5
            k = np.where(low, k - g.integers(0, 6, n), k)
        self.x = np.round((k0 + k) * self.dm, 6)


def distances(g, n):
    return np.round(g.random(n) * g.choice([0.3, 0.6, 1.0]), 3)


@unit("ks_test_gr", ["C09", "C13", "C14"], [FQ + "ks_test_gr"], symbolic=False, cases=500,
      why_bounded="compares with simulated samples; the distances of drawn samples are recomputed")
class KsTest(Unit):
    def inputs(self, V):
        g = V.rng
        n = [0, 1, 2, int(g.integers(3, 40)), int(g.integers(3, 40)), int(g.integers(3, 40))][int(g.integers(6))]
        s = KsSample(g, n)
        a = {"x": V.arr("x", n, gen=lambda g, k: s.x.copy()), "dm": s.dm, "mc": s.mc}
        V.values.update(dm=s.dm, mc=s.mc)
        a["b"] = V.real("b", gen=lambda g: [0.6, 1.0, 1.3, 2.1, np.float64(0.9), np.nan][int(g.choice(6, p=[.2, .2, .2, .2, .18, .02]))])
        a["n"] = V.int("simulations", 1, 12)
        a["ds"] = None
        if V.choice("distances given", [True, False]):
            k = V.int("number of distances", 1, 30)
            a["ds"] = V.arr("ds", k, gen=lambda g, k: distances(g, k), is_list=V.choice("list", [True, False]))
        a["w"] = V.arr("w", n, gen=gen_weights) if V.choice("weighted", [True, False, False]) else None
        a["used"] = V.choice("positional", [True, False])
        return a

    def pre(self, S, a):
        p = [a["w"] is None or sum(a["w"]) > 0]
        if a["ds"] is None and len(a["x"]):
            p.append(max(a["x"]) < considered(a["x"], a["mc"], a["b"], a["n"]) - a["dm"])
        return p

    def run(self, a):
        f = get(MODULE + ":ks_test_gr")
        with Recorder() as rec:
            if a["used"]:
                r = f(a["x"], a["mc"], a["dm"], a["b"], a["n"], a["ds"], a["w"])
            else:
                r = f(a["x"], mc=a["mc"], delta_m=a["dm"], b_value=a["b"], n=a["n"], ks_ds=a["ds"], weights=a["w"])
        return r, rec.calls

    def post(self, P, S, a, r):
        (p, d, ds), calls = r
        x = a["x"]
        if len(set(x.tolist())) < 2 or a["b"] != a["b"]:
            P.eq("no test of a single value", (p, d), (0, 1))
            P.eq("no distances", len(ds), 0)
            return
        P.eq("observed distance", d, ks_distance(x, a["w"], a["mc"], a["dm"], a["b"]))
        if a["ds"] is not None:
            P.eq("distances as given", np.asarray(ds), np.asarray(a["ds"]))
        else:
            P.eq("as many simulations as asked for", len(ds), a["n"])
        P.check("the fraction of distances that reach the observed one",
                abs(p - np.mean(np.asarray(ds, dtype=float) >= d)) < 1e-12)
        if a["ds"] is None and len(calls) == a["n"]:
            top = considered(x, a["mc"], a["b"], a["n"]) - a["dm"]
            for i, (_, _, sim) in enumerate(calls):
                if len(sim) == len(x) and sim.max() < top:
                    P.eq("distance of a simulated sample", ds[i], ks_distance(sim, a["w"], a["mc"], a["dm"], a["b"]))
                P.eq("simulated samples have the size of the sample", len(sim), len(x))
                P.check("simulated samples lie on the grid at or above mc",
                        np.all(sim > a["mc"] - a["dm"] * 0.01) and
                        np.allclose(sim / a["dm"], np.round(sim / a["dm"]), atol=1e-6))


METHODS = ["ClassicBValueEstimator", "UtsuBValueEstimator", "BPositiveBValueEstimator", "BMorePositiveBValueEstimator"]


def candidates(g, dm, x):
    lo, hi = int(round(x.min() / dm)), int(round(x.max() / dm))
    k = g.integers(lo - 2, hi + 3, int(g.integers(1, 8)))
    if g.random() < 0.5:
        k = np.sort(k)
    return np.round(k * dm, 6)


@unit("estimate_mc_ks", ["C09", "C13", "C14"], [FQ + "estimate_mc_ks"], symbolic=False, cases=260,
      why_bounded="the whole procedure with simulated distances; its loop is proved over the contracts of "
                  "ks_test_gr and the estimator (estimate_mc_ks_loop)")
class McKs(Unit):
    def inputs(self, V):
        g = V.rng
        n = int(g.integers(1, 60))
        s = KsSample(g, n, above=False)
        a = {"x": V.arr("x", n, gen=lambda g, k: s.x.copy()), "dm": s.dm}
        V.values.update(dm=s.dm)
        a["mcs"] = None
        if V.choice("candidates given", [True, True, False]):
            c = candidates(g, s.dm, s.x)
            a["mcs"] = V.arr("mcs", len(c), gen=lambda g, k: c, is_list=V.choice("list", [True, False]))
        a["p"] = V.choice("p_value_pass", [0.1, 0.0, 0.5, 1.0, 0.05, 0.3])
        a["stop"] = V.choice("stop_when_passed", [True, False])
        a["b"] = V.choice("b", [None, None, 0.9, 1.2])
        a["method"] = V.choice("method", METHODS)
        a["n"] = V.int("simulations", 2, 12)
        a["ds"] = None
        if a["mcs"] is not None and V.choice("distances given", [True, False]):
            a["ds"] = [distances(g, 20).tolist() for _ in range(len(set(np.asarray(a["mcs"]).tolist())))]
            V.values["ds"] = a["ds"]
            V.tracked.append(("ds", a["ds"], [list(d) for d in a["ds"]]))
        a["kw"] = {}
        if a["method"].startswith("BPos") or a["method"].startswith("BMore"):
            if V.choice("dmc given", [True, False]):
                a["kw"]["dmc"] = s.dm * 2
        return a

    def pre(self, S, a):
        if a["mcs"] is None:
            return [len(set(a["x"].tolist())) > 1]
        return []

    def run(self, a):
        f = get(MODULE + ":estimate_mc_ks")
        return f(a["x"], a["dm"], mcs_test=a["mcs"], p_value_pass=a["p"], stop_when_passed=a["stop"],
                 b_value=a["b"], b_method=get(B + a["method"]) if "Positive" not in a["method"] else
                 get(B + a["method"]), n=a["n"], ks_ds_list=a["ds"], **a["kw"])

    def post(self, P, S, a, r):
        best, info = r
        x, dm = a["x"], a["dm"]
        tested, ds, ps, bs = (info[k] for k in ("mcs_tested", "ks_ds", "p_values", "b_values_tested"))
        m = len(tested)
        P.check("aligned lists", len(ds) == len(ps) == len(bs) == m)
        if a["mcs"] is not None:
            cand = sorted(set(np.asarray(a["mcs"], dtype=float).tolist()))
        else:
            k = int(round((x.max() - x.min()) / dm))
            cand = [x.min() + i * dm for i in range(max(k, m if m <= k + 1 else k))]
        if len(ds) != m or len(ps) != m or len(bs) != m:
            return
        passed = [p >= a["p"] for p in ps]
        P.eq("candidates in ascending order", np.array(tested, dtype=float), np.array(cand[:m]))
        if a["stop"] and any(passed):
            P.check("stops at the first pass", passed.index(True) == m - 1)
        else:
            P.eq("all candidates are tested", m, len(cand))
        for i, mc in enumerate(cand[:m]):
            y = x[x >= mc - dm / 2]
            if a["b"] is None:
                e = get(B + a["method"])()
                e.calculate(y, mc, dm, **a["kw"])
                P.eq(f"b-value of candidate {i}", bs[i], e.b_value)
            else:
                P.eq(f"b-value of candidate {i}", bs[i], a["b"])
            if len(set(y.tolist())) < 2 or bs[i] != bs[i]:
                P.eq(f"no test of candidate {i}", (ps[i], ds[i]), (0, 1))
            elif (a["ds"] is not None or y.max() < considered(y, mc, bs[i], a["n"]) - dm):
                d = ks_distance(y, None, mc, dm, bs[i])
                P.eq(f"distance of candidate {i}", ds[i], d)
                if a["ds"] is not None:
                    P.eq(f"p-value of candidate {i}", ps[i], np.mean(np.asarray(a["ds"][i]) >= ds[i]))
                else:
                    P.check(f"p-value of candidate {i} is a fraction of the simulations",
                            abs(ps[i] * a["n"] - round(ps[i] * a["n"])) < 1e-9 and 0 <= ps[i] <= 1)
        if any(passed):
            i = passed.index(True)
            P.eq("smallest passing candidate", best, tested[i])
            P.eq("its b-value", info["best_b_value"], bs[i])
        else:
            P.check("None without passing candidate", best is None and info["best_b_value"] is None)


class Draws:
    """an arbitrary function of a number: uninterpreted, or a drawn table"""

    def __init__(self, V, name, values):
        self.name, self.values, self.table = name, values, {}
        self.rng = None if V.symbolic else np.random.default_rng(V.rng.integers(2 ** 31))

    def __call__(self, x):
        if self.rng is None:
            from pyvc.spec import SYM
            return SYM.fn(self.name, x)
        k = round(float(x), 6)
        if k not in self.table:
            self.table[k] = float(self.rng.choice(self.values))
        return self.table[k]


def require(name, ok, observable=False):
    """an argument a callee must be given (its precondition). A caller that gives it something else may still be
    right: nothing is decided. observable: what is handed over is itself the behaviour"""
    if Ctx.cur is not None:
        Ctx.cur.oblige(name, bool_term(ok), "post" if observable else "call")
    elif not bool(ok):
        if not observable:
            raise Limit("another argument: " + name)
        raise WrongArgument(name)


class WrongArgument(Exception):
    observable = True


class Tokens:
    """a sequence of opaque values"""

    def __getitem__(self, i):
        return ("token", i)


def at_or_above(S, x, mc, dm):
    return S.select(x, S.where(S.len(x), lambda i: S.at(x, i) >= mc - dm / 2))


class replaced:
    """a module attribute replaced by its contract"""

    def __init__(self, module, **names):
        self.mod, self.names = mod(module), names

    def __enter__(self):
        gone = [k for k in self.names if not hasattr(self.mod, k)]
        if gone:
            raise Limit(f"{self.mod.__name__} does not use {gone}")
        self.old = {k: getattr(self.mod, k) for k in self.names}
        for k, v in self.names.items():
            setattr(self.mod, k, v)

    def __exit__(self, *_):
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def abstract_estimator(S, a, res):
    """the contract of a b-value estimator: results depend on the sample for mc only"""
    class Estimator:
        def calculate(self, magnitudes, mc, delta_m, **kw):
            require("the estimator is given the events at or above mc",
                    S.eq(magnitudes, at_or_above(S, a["x"], mc, a["dm"])))
            require("the estimator is given delta_m", S.eq(delta_m, a["dm"]))
            require("the estimator is given the keyword arguments",
                    set(kw) == {"extra"} and S.eq(kw["extra"], a["extra"]))
            for k, f in res.items():
                setattr(self, k, f(mc))
            return self.b_value
    return Estimator


def default_candidates(S, a, bounded=False):
    """the contract of bin_to_precision, where it is asked for the default candidates;
    bounded: none is above the largest magnitude (proved by default_candidates_bounded)"""
    def bin_to_precision(x, delta_x=None):
        lo, hi = (f(S.len(a["x"]), lambda i: S.at(a["x"], i)) for f in (S.min, S.max))
        require("default candidates from the smallest to the largest magnitude",
                S.eq(x, npshim.NP["arange"](lo, hi, a["dm"])))
        require("default candidates are binned to delta_m", S.eq(delta_x, a["dm"]))
        a["grid"] = sym_array("candidates", S.len(x).t)
        if bounded:
            g = a["grid"].copy()
            Ctx.cur.fact(lambda i: S.implies(S.and_(SNum(i) >= 0, SNum(i) < S.len(x)), g.at(i) <= hi).t, 1, None,
                         "candidates are at most the largest magnitude")
        return a["grid"].copy()
    return bin_to_precision


def _ks_loop(S, k, L):
    a = _ks_loop.a
    c = lambda i: L.pre["mcs_test"][i]
    b = (lambda i: a["bs"](c(i))) if a["b"] is None else (lambda i: a["b"])
    return State({"mcs_tested": S.seq(k, c, is_list=True), "ks_ds": S.seq(k, lambda i: a["d"](c(i)), is_list=True),
                  "p_values": S.seq(k, lambda i: a["ps"](c(i)), is_list=True),
                  "b_values_test": S.seq(k, b, is_list=True)},
                 lambda cur: [S.forall(k, lambda i: a["ps"](c(i)) < a["p"])] if a["stop"] else [])


@unit("estimate_mc_ks_loop", ["C09", "C13", "C14"], [FQ + "estimate_mc_ks"], cases=300)
class McKsLoop(Unit):
    """the procedure over the contracts of ks_test_gr and the estimator"""
    loops = {("estimate_mc_ks", 0): _ks_loop}
    split = {"candidates given": 2, "stop_when_passed": 2}

    def inputs(self, V):
        n = V.int("n", 1, 20)
        s = None if V.symbolic else KsSample(V.rng, int(n), above=False)
        a = {"x": V.arr("x", n, gen=lambda g, k: s.x.copy()), "dm": V.real("dm", gt=0, gen=lambda g: s.dm)}
        a["mcs"] = None
        if V.choice("candidates given", [True, False]):
            c = None if V.symbolic else candidates(V.rng, s.dm, s.x)
            a["mcs"] = V.arr("mcs", V.int("m", 0, gen=lambda g: len(c)), gen=lambda g, k: c)
        a["p"] = V.real("p_value_pass", gen=lambda g: [0.1, 0.0, 0.5][int(g.integers(3))])
        a["stop"] = V.choice("stop_when_passed", [True, False])
        a["b"] = V.choice("b given", [None, True]) and V.real("b", gt=0, hi=3)
        a["ds"] = V.choice("distances given", [None, Tokens()])
        a["extra"] = V.real("extra")
        a["n"] = V.int("simulations", 1, 100)
        a["bs"], a["ps"], a["d"] = Draws(V, "b", [1.0, 0.8, 2.0, 1.2]), Draws(V, "p", [0.0, 0.1, 0.3, 0.5, 0.05, 0.0, 1.0]), \
            Draws(V, "d", [0.1, 0.2, 0.3])
        _ks_loop.a = a
        return a

    def pre(self, S, a):
        p = [a["dm"] > 1e-9]
        if a["b"] is None or S.symbolic:
            p.append(on_grid(S, a["x"], a["dm"]))
        return p

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON

        def ks_test(magnitudes, mc, delta_m, b_value, n=10000, ks_ds=None, weights=None):
            require("ks_test_gr is given the events at or above mc", S.eq(magnitudes, at_or_above(S, a["x"], mc, a["dm"])))
            require("ks_test_gr is given delta_m", S.eq(delta_m, a["dm"]))
            require("ks_test_gr is given the b-value", S.eq(b_value, a["bs"](mc) if a["b"] is None else a["b"]))
            require("ks_test_gr is given no weights", weights is None)
            if a["ds"] is None:
                require("ks_test_gr is given the number of simulations", S.eq(n, a["n"]))
                require("ks_test_gr simulates the distances", ks_ds is None)
            else:
                require("ks_test_gr is given distances", isinstance(ks_ds, tuple) and ks_ds[0] == "token")
                require("ks_test_gr is given the distances of this candidate",
                        S.eq(self.candidates(S, a)[1](ks_ds[1]), mc))
            return a["ps"](mc), a["d"](mc), ks_ds
        names = {"ks_test_gr": ks_test}
        if S.symbolic and a["mcs"] is None:
            names["bin_to_precision"] = default_candidates(S, a)
        with replaced(MODULE, **names):
            return get(MODULE + ":estimate_mc_ks")(
                a["x"], a["dm"], mcs_test=a["mcs"], p_value_pass=a["p"], stop_when_passed=a["stop"], b_value=a["b"],
                b_method=abstract_estimator(S, a, {"b_value": a["bs"]}), n=a["n"], ks_ds_list=a["ds"],
                extra=a["extra"])

    def candidates(self, S, a):
        if a["mcs"] is None:
            if S.symbolic:
                return S.len(a["grid"]), lambda i: S.at(a["grid"], i)
            x, dm = a["x"], a["dm"]
            return len(np.arange(min(x), max(x), dm)), lambda i: binned(S, min(x) + i * dm, dm)
        if S.symbolic:
            u = npshim.NP["unique"](a["mcs"])
        else:
            u = np.array(sorted(set(a["mcs"].tolist())))
        return S.len(u), lambda i: S.at(u, i)

    def post(self, P, S, a, r):
        best, info = r
        m, c = self.candidates(S, a)
        p = lambda i: a["ps"](c(i))
        b = (lambda i: a["bs"](c(i))) if a["b"] is None else (lambda i: a["b"])
        f = S.first(0, m, lambda i: p(i) >= a["p"])
        k = S.ite(f < m, f + 1, m) if a["stop"] else m
        P.eq("tested candidates", info["mcs_tested"], S.seq(k, c, is_list=True))
        P.eq("p-values", info["p_values"], S.seq(k, p, is_list=True))
        P.eq("distances", info["ks_ds"], S.seq(k, lambda i: a["d"](c(i)), is_list=True))
        P.eq("b-values", info["b_values_tested"], S.seq(k, b, is_list=True))
        if S.is_true(f < m):
            P.eq("smallest passing candidate", best, c(f))
            P.eq("its b-value", info["best_b_value"], b(f))
        else:
            P.check("None without passing candidate", best is None and info["best_b_value"] is None)


@unit("ks_test_gr_given", ["C09", "C13", "C14"], [FQ + "ks_test_gr", FQ + "cdf_discrete_exp"], cases=200)
class KsGiven(Unit):
    """distances given: the observed distance and the p-value"""
    split = {"weighted": 2}

    def inputs(self, V):
        n = V.int("n", 0, 25)
        a = {"m0": V.int("mc/delta_m", -10, 20), "sym": V.symbolic,
             "dm": V.real("dm", gt=0, gen=lambda g: [0.1, 0.2, 0.5, 1.0, 0.01][int(g.integers(5))])}
        a["k"] = V.arr("k", n, kind="i", lo=0, gen=lambda g, k: np.floor(g.exponential(3, k)).astype(int) *
                       int(g.random() < 0.9))
        a["w"] = V.choice("weighted", [None, 1]) and V.arr("w", n, lo=0, gen=gen_weights)
        a["b"] = V.real("b", gt=0, gen=lambda g: [0.6, 1.0, 1.3][int(g.integers(3))])
        a["ds"] = V.arr("ds", V.int("distances", 1, 20), gen=distances)
        return a

    def pre(self, S, a):
        p = [a["dm"] > 1e-9]
        if a["w"] is not None:
            p.append(S.or_(S.eq(S.len(a["k"]), 0), S.sum(S.len(a["k"]), lambda i: S.at(a["w"], i)) > 0))
        return p

    def run(self, a):
        S = SYM if a["sym"] else CON
        dm, m0, k = a["dm"], S.real(a["m0"]), a["k"]
        a["mc"] = m0 * dm
        x = S.seq(S.len(k), lambda i: (m0 + S.real(S.at(k, i))) * dm)
        if not a["sym"]:
            x, a["mc"] = np.round(x, 6), round(a["mc"], 6)
        return get(MODULE + ":ks_test_gr")(x, a["mc"], dm, a["b"], ks_ds=a["ds"], weights=a["w"])

    def post(self, P, S, a, r):
        p, d, ds = r
        k, n, dm = a["k"], S.len(a["k"]), a["dm"]
        w = (lambda i: S.at(a["w"], i)) if a["w"] is not None else (lambda i: S.real(S.num(1)))
        if S.is_true(S.forall(n, lambda i: S.eq(S.at(k, i), S.at(k, 0)))):
            P.eq("no test of a single value", (p, d), (S.num(0), S.num(1)))
            return
        K = S.max(n, lambda i: S.at(k, i))
        if a["w"] is None:
            below = lambda j: S.toint(S.sum(n, lambda i: S.ite(S.at(k, i) < j, w(i), S.real(S.num(0)))))
            bins = lambda j: S.toint(S.sum(j, lambda l: S.real(S.count(n, lambda i: S.eq(S.at(k, i), l)))))
        else:
            below = lambda j: S.sum(n, lambda i: S.ite(S.at(k, i) < j, w(i), S.real(S.num(0))))
            bins = lambda j: S.sum(j, lambda l: S.sum(n, lambda i: S.ite(S.eq(S.at(k, i), l), w(i), S.real(S.num(0)))))
        P.split_all(n, lambda j, i: S.ite(S.at(k, i) < j + 1, w(i), S.real(S.num(0))), lambda j, i: S.at(k, i) < j)
        # the bins up to j hold the events up to j
        P.induction("events up to a bin", K + 1, lambda j: S.eq(bins(j), below(j)))
        if not S.symbolic:
            bins = below
        emp = lambda j: S.real(bins(j + 1)) / S.real(bins(K + 1))
        th = lambda j: 1 - S.exp(-a["b"] * S.log(10) * (S.real(j) + 1) * dm)
        P.eq("observed distance", d, S.max(K + 1, lambda j: S.abs(emp(j) - th(j))))
        P.eq("p-value", p, S.real(S.count(S.len(a["ds"]), lambda i: S.at(a["ds"], i) >= d)) / S.real(S.len(a["ds"])))
        P.eq("distances as given", ds, a["ds"])
