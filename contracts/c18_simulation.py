"""C18: simulated and dithered magnitudes."""
import numpy as np

from pyvc.core import Ctx
from pyvc.spec import CON, SYM
from .common import LN10, Unit, get, mod, unit
from .c01_binning import binned, gen_width

M = "utils.simulate_distributions"
FQ = "seismostats.utils.simulate_distributions:"


class Extremes:
    """np.random with the ends of each distribution's support among the draws"""

    def __init__(self, g):
        self.g = g

    def __getattr__(self, name):
        return getattr(np.random, name)

    def unit(self, size):
        u = self.g.random(size)
        k = self.g.integers(0, 6, size)
        return np.where(k == 0, 0.0, np.where(k == 1, np.nextafter(1.0, 0.0), u))

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(low, high).shape
        r = low + (np.asarray(high) - low) * self.unit(size)
        return r if np.shape(r) else float(r)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = ranf = random

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape or None)

    def exponential(self, scale=1.0, size=None):
        if size is None:
            size = np.shape(scale)
        return -np.log1p(-self.unit(size)) * scale


class Numpy:
    """numpy with another random module"""

    def __init__(self, g):
        self.random = Extremes(g)

    def __getattr__(self, name):
        return getattr(np, name)


def drawn(a, f):
    """f() with the draws of this case"""
    if a.get("g") is None:
        return f()
    np.random.seed(a["seed"])
    if not a["extremes"]:
        return f()
    m = mod(M)
    if getattr(m, "np", None) is not np:
        return f()
    m.np = Numpy(a["g"])
    try:
        return f()
    finally:
        m.np = np


def draws(V, a):
    if V.symbolic:
        return
    a["seed"] = V.int("seed", 0, 10 ** 6)
    a["g"] = np.random.default_rng(a["seed"])
    a["extremes"] = V.choice("extreme draws", [False, True])


def gen_beta(g):
    return [float(np.round(g.random() * 4 + 0.05, 2)), 2.3, 0.01, 30.0][int(g.choice(4, p=[0.7, 0.1, 0.1, 0.1]))]


def gen_max(g, mc):
    return [0.0, -0.5, mc, mc + 0.1, mc + 6, 9.0][int(g.integers(6))]


class Simulation(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 12)
        a = {"n": n}
        draws(V, a)
        if V.choice("beta", ["one", "array"]) == "array":
            a["beta"] = V.arr("beta", n, lo=1e-6, gen=lambda g, k: np.array([gen_beta(g) for _ in range(k)], dtype=float))
        else:
            a["beta"] = V.real("beta", gt=0, gen=gen_beta)
        a["mc"] = V.real("mc", gen=lambda g: float(np.round(g.random() * 8 - 3, 1)))
        a["max"] = V.choice("truncated", [None, 1]) and V.real("mag_max", gen=lambda g: gen_max(g, a["mc"]))
        return a

    def pre(self, S, a):
        return [] if a["max"] is None else [a["max"] >= a["mc"]]


def slack(S, *xs):
    """rounding of the last digits"""
    return 0 if S.symbolic else 1e-9 * (1 + sum(abs(float(x)) for x in xs))


@unit("simulate_magnitudes", ["C18", "C14"], [FQ + "simulate_magnitudes"], cases=300)
class Simulate(Simulation):
    def run(self, a):
        return drawn(a, lambda: get(M + ":simulate_magnitudes")(a["n"], a["beta"], a["mc"], a["max"]))

    def post(self, P, S, a, r):
        P.check("as many as asked for", S.eq(S.len(r), a["n"]))
        e = slack(S, a["mc"], a["max"] or 0)
        P.forall("not below mc", a["n"], lambda i: S.at(r, i) >= a["mc"] - e)
        if a["max"] is not None:
            P.forall("not above mag_max", a["n"], lambda i: S.at(r, i) <= a["max"] + e)


@unit("simulate_magnitudes_binned", ["C18", "C14"], [FQ + "simulate_magnitudes_binned", FQ + "simulate_magnitudes"], cases=300)
class SimulateBinned(Simulation):
    def inputs(self, V):
        a = super().inputs(V)
        a["d"] = V.real("d", lo=0, gen=lambda g: [0.0, gen_width(g)][int(g.random() < 0.85)])
        a["k"] = V.int("steps", None, None) if V.symbolic else V.int("steps", -20, 60)
        a["par"] = V.choice("parameter", ["b_value", "beta", "other"])
        if V.symbolic:
            if bool(a["d"] > 0):
                a["mc"] = SYM.real(a["k"]) * a["d"]
        elif a["d"] > 0:
            a["mc"] = float(np.round(a["k"] * a["d"], 6))
        return a

    def pre(self, S, a):
        return ([] if a["max"] is None else [a["max"] >= a["mc"] - a["d"] / 2]) + [S.or_(S.eq(a["d"], 0), a["d"] > 1e-6)]

    def raises(self, S, a):
        return [(a["par"] == "other", ValueError, "unknown parameter")]

    def run(self, a):
        return drawn(a, lambda: get(M + ":simulate_magnitudes_binned")(
            a["n"], a["beta"], a["mc"], a["d"], a["max"], a["par"]))

    def post(self, P, S, a, r):
        n, d, mc = a["n"], a["d"], a["mc"]
        P.check("as many as asked for", S.eq(S.len(r), n))
        e = slack(S, mc, a["max"] or 0)
        P.forall("not below mc", n, lambda i: S.at(r, i) >= mc - e)
        if a["max"] is not None:
            P.forall("at most half a bin above mag_max", n, lambda i: S.at(r, i) <= a["max"] + d * (0.5 + 1e-9) + e)
        if S.symbolic:
            P.forall("multiples of delta_m", n, lambda i: S.or_(S.eq(d, 0), S.eq(S.at(r, i) / d, S.floor(S.at(r, i) / d))))
        elif d > 0:
            P.check("multiples of delta_m", all(abs(x - round(x / d) * d) < 1e-9 * (1 + abs(x)) for x in r))


# ---- dithering -------------------------------------------------------------

def gen_binned(g, n, d):
    """magnitudes on a grid, possibly shifted against the multiples of d"""
    off = float(np.round(d * g.choice([0.0, 0.5, 0.3, 0.49, -0.2]), 8))
    k = g.integers(0, [2, 5, 30][int(g.integers(3))], n) + int(g.integers(-10, 20))
    return np.round(k * d + off, 8)


@unit("dither_magnitudes", ["C18", "C14"], [FQ + "dither_magnitudes", FQ + "simulate_magnitudes_binned",
                                            FQ + "simulate_magnitudes"], symbolic=False, cases=300,
      why_bounded="the pieces drawn per bin are joined; the pieces are proved in simulate_magnitudes_binned")
class Dither(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 40)
        a = {"n": n}
        draws(V, a)
        a["d"] = V.real("d", gen=lambda g: float(g.choice([0.1, 0.01, 0.2, 0.5, 0.05, 0.25, 1.0])))
        a["fault"] = V.choice("fault", [False] * 9 + [True]) and n > 1

        def values(g, k):
            x = gen_binned(g, k, a["d"])
            x[0] += a["d"] / 3 if a["fault"] else 0
            return x
        a["x"] = V.arr("x", n, gen=values, is_list=V.choice("list", [False, True]))
        a["b"] = V.real("b", gen=lambda g: float(np.round(g.random() * 2 + 0.3, 2)))
        return a

    def raises(self, S, a):
        return [(a["fault"], ValueError, "not binned"),
                (not a["fault"], ValueError, "binned to a larger width", "may")]

    def run(self, a):
        return drawn(a, lambda: get(M + ":dither_magnitudes")(a["x"], a["d"], a["b"]))

    def post(self, P, S, a, r):
        x, d = np.asarray(a["x"], dtype=float), a["d"]
        r = np.asarray(r, dtype=float)
        P.check("as many as given", r.shape == x.shape)
        e = 1e-9
        for c in np.unique(x):
            lo, hi = int(np.sum(np.abs(r - c) <= d / 2 - e)), int(np.sum(np.abs(r - c) <= d / 2 + e))
            k = int(np.sum(x == c))
            P.check(f"{k} values within half a bin of {c}: {lo} to {hi}", lo <= k <= hi)


class Joined:
    """numpy whose concatenate leaves the pieces apart"""

    def __init__(self, np):
        self.np = np

    def __getattr__(self, name):
        return getattr(self.np, name)

    @staticmethod
    def concatenate(pieces):
        return pieces


@unit("dither_magnitudes_pieces", ["C18", "C14"], [FQ + "dither_magnitudes"], budget=60.0)
class DitherPieces(Unit):
    """what is drawn for each bin; the draws themselves are simulate_magnitudes_binned, their order is that of the bins"""
    cases = 0

    def inputs(self, V):
        n = V.int("n", 1)
        d, f, b = V.real("d", gt=1e-6), V.real("shift"), V.real("b", gt=0)
        k = V.arr("k", n, kind="i")
        x = SYM.seq(n, lambda i: (f + SYM.real(SYM.at(k, i))) * d)
        return {"n": n, "k": k, "x": x, "d": d, "b": b, "f": f}

    def raises(self, S, a):
        return [(S.true, ValueError, "binned to a larger width", "may")]

    def run(self, a):
        m = mod(M)
        m.np = Joined(m.np)
        m.simulate_magnitudes_binned = lambda *args, **kw: Piece(*args, **kw)
        return m.dither_magnitudes(a["x"], a["d"], a["b"])

    def post(self, P, S, a, r):
        n, k, d, f = a["n"], a["k"], a["d"], a["f"]
        lo, hi = S.min(n, lambda i: S.at(k, i)), S.max(n, lambda i: S.at(k, i))
        m = hi - lo + 1
        P.eq("one piece per bin", S.len(r), m)
        P.forall("as many values as events in the bin", m, lambda j: S.eq(
            S.at(r, j).n, S.real(S.count(n, lambda i: S.eq(S.at(k, i), lo + j)))))
        c = lambda j: (f + S.real(lo + j)) * d
        P.forall("half a bin below", m, lambda j: S.eq(S.at(r, j).mc, c(j) - d / 2))
        P.forall("half a bin above", m, lambda j: S.eq(S.at(r, j).mag_max, c(j) + d / 2))
        P.forall("continuous", m, lambda j: S.eq(S.at(r, j).delta_m, 0))


class Piece:
    def __init__(self, n, b, mc, delta_m, mag_max=None, b_parameter="b_value"):
        self.n, self.mc, self.delta_m, self.mag_max = n, mc, delta_m, mag_max
