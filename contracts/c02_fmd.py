"""C02: frequency-magnitude distributions."""
import numpy as np

from .common import Unit, gen_weights, get, stub, unit
from .c01_binning import EPS, binned, gen_width

M = "utils.binning"
FQ = "seismostats.utils.binning:"


def gen_mags(rng, n):
    k = rng.integers(5)
    if k == 0:
        return np.round(rng.random(n) * 4 - 1, 1)
    if k == 1:
        return rng.integers(-2, 5, n)
    if k == 2:
        return np.round(rng.exponential(0.5, n) + 1.05, 2)
    if k == 3:
        return np.full(n, np.round(rng.random() * 3, 2))
    return rng.normal(1, 1.2, n)


def width(V):
    return V.real("d", gen=lambda g: [0.0, -0.1, gen_width(g)][int(np.searchsorted([0.03, 0.05], g.random()))])


def kof(S, x, d):
    return S.floor(x / d + 0.5 + EPS)


class Fmd:
    """the specification of the distribution"""

    def __init__(self, S, a):
        x, d = a["x"], a["d"]
        self.S, self.a = S, a
        self.n = n = S.len(x)
        self.k = lambda i: kof(S, S.at(x, i), d)
        self.lo = S.min(n, self.k)
        self.hi = S.max(n, self.k)
        self.m = S.toint(self.hi - self.lo + 1)

    def of(self, cond):
        """number or weight of the events with cond(k_i)"""
        S, w = self.S, self.a["w"]
        if w is None:
            return S.real(S.count(self.n, lambda i: cond(self.k(i))))
        return S.sum(self.n, lambda i: S.ite(cond(self.k(i)), S.at(w, i), 0.0))

    def total(self):
        return self.of(lambda k: self.S.true)


class FmdUnit(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 25)
        return {"x": V.arr("x", n, gen=gen_mags, is_list=V.choice("list", [False, True])), "d": width(V),
                "w": V.choice("weighted", [None, 1]) and V.arr("w", n, lo=0, gen=gen_weights),
                "pos": V.choice("pos", ["center", "left", "other"])}

    def pre(self, S, a):
        return [S.len(a["x"]) >= 1, S.or_(a["d"] <= 0, a["d"] > 1e-9)]


@unit("get_fmd", ["C02", "C14"], [FQ + "get_fmd"], cases=200)
class GetFmd(FmdUnit):
    def raises(self, S, a):
        return [(a["d"] <= 0, ValueError, "bin width not positive"),
                (a["pos"] == "other", AssertionError, "unknown bin position")]

    def run(self, a):
        return get(M + ":get_fmd")(a["x"], a["d"], weights=a["w"], bin_position=a["pos"])

    def post(self, P, S, a, r):
        bins, counts, mags = r
        s = Fmd(S, a)
        d = a["d"]
        shift = d / 2 if a["pos"] == "left" else 0
        P.eq("magnitudes binned", mags, S.seq(s.n, lambda i: binned(S, S.at(a["x"], i), d)))
        P.eq("consecutive bins covering all magnitudes", bins,
             S.seq(s.m, lambda j: (s.lo + S.real(j)) * d - shift))
        P.eq("each count is the number (weight) of magnitudes in its bin", counts,
             S.seq(s.m, lambda j: s.of(lambda k: S.eq(k, s.lo + S.real(j)))))
        total(P, S, s, counts)


def total(P, S, s, counts):
    P.induction("partial sums of the counts", s.m, lambda j: S.eq(
        S.sum(j, lambda l: S.at(counts, l)), s.of(lambda k: k < s.lo + S.real(j))))
    P.eq("counts add up to the total", S.sum(S.len(counts), lambda l: S.at(counts, l)), s.total())


@stub(FQ + "get_fmd", by=["get_fmd"])
def _fmd(S, A, ctx):
    a = {"x": A.magnitudes, "d": S.num(A.fmd_bin), "w": A.weights, "pos": A.bin_position}
    if bool(a["d"] <= 0):
        raise ValueError("Bin size")
    if a["pos"] not in ("left", "center"):
        raise AssertionError("bin_position")
    if bool(S.len(a["x"]) == 0):
        raise ValueError("empty")
    s = Fmd(S, a)
    d = a["d"]
    shift = d / 2 if a["pos"] == "left" else 0
    return (S.seq(s.m, lambda j: (s.lo + S.real(j)) * d - shift),
            S.seq(s.m, lambda j: s.of(lambda k: S.eq(k, s.lo + S.real(j)))),
            S.seq(s.n, lambda i: binned(S, S.at(a["x"], i), d)))


@unit("get_cum_fmd", ["C02", "C14"], [FQ + "get_cum_fmd"], budget=60.0, cases=200)
class GetCumFmd(FmdUnit):
    def pre(self, S, a):
        return super().pre(S, a) + [S.not_(S.eq(a["d"], 0))]

    def raises(self, S, a):
        return [(a["d"] < 0, ValueError, "bin width negative"),
                (a["pos"] == "other", AssertionError, "unknown bin position")]

    def run(self, a):
        return get(M + ":get_cum_fmd")(a["x"], a["d"], weights=a["w"], bin_position=a["pos"])

    def post(self, P, S, a, r):
        bins, counts, mags = r
        s = Fmd(S, a)
        d = a["d"]
        shift = d / 2 if a["pos"] == "left" else 0
        P.eq("magnitudes binned", mags, S.seq(s.n, lambda i: binned(S, S.at(a["x"], i), d)))
        P.eq("consecutive bins covering all magnitudes", bins,
             S.seq(s.m, lambda j: (s.lo + S.real(j)) * d - shift))
        if S.symbolic:
            P.induction("tail sums", s.m, lambda p: S.eq(
                S.sum(p, lambda l: s.of(lambda k: S.eq(k, s.hi - S.real(l)))), s.of(lambda k: k >= s.hi + 1 - S.real(p))))
        P.eq("each entry counts its bin and all larger ones", counts,
             S.seq(s.m, lambda j: s.of(lambda k: k >= s.lo + S.real(j))))
        P.eq("the first entry is the total", S.at(counts, 0), s.total())


@unit("get_cum_fmd_unbinned", ["C02", "C14"], [FQ + "get_cum_fmd"], cases=120, budget=40.0)
class GetCumFmd0(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 25)
        return {"x": V.arr("x", n, gen=gen_mags, is_list=V.choice("list", [False, True])),
                "w": V.choice("weighted", [None, 1]) and V.arr("w", n, lo=0, gen=gen_weights)}

    def run(self, a):
        return get(M + ":get_cum_fmd")(a["x"], 0, weights=a["w"])

    def post(self, P, S, a, r):
        bins, counts, mags = r
        x, w = a["x"], a["w"]
        n, m = S.len(x), S.len(bins)
        P.eq("magnitudes unchanged", mags, x if S.symbolic else np.asarray(x, dtype=float))
        P.forall("bins ascend", m - 1, lambda j: S.at(bins, j) < S.at(bins, j + 1))
        P.forall("every magnitude is a bin", n, lambda i: S.exists(m, lambda j: S.eq(S.at(bins, j), S.at(x, i))))
        P.forall("every bin is a magnitude", m, lambda j: S.exists(n, lambda i: S.eq(S.at(bins, j), S.at(x, i))))

        def of(cond):
            if w is None:
                return S.real(S.count(n, lambda i: cond(S.at(x, i))))
            return S.sum(n, lambda i: S.ite(cond(S.at(x, i)), S.at(w, i), 0.0))
        P.check("one count per bin", S.eq(S.len(counts), m))

        def entry(j):
            return S.eq(S.real(S.at(counts, j)), of(lambda v: v >= S.at(bins, j)))
        P.induction("tail sums", m, lambda p: S.implies(p < m, entry(m - 1 - p)))
        P.forall("each entry counts its magnitude and all larger ones", m, lambda p: entry(m - 1 - p))
        P.eq("the first entry is the total", S.real(S.at(counts, 0)), of(lambda v: S.true))
