"""C08: maximum curvature."""
import numpy as np

from .common import Unit, get, unit
from .c01_binning import gen_width
from .c02_fmd import Fmd, gen_mags

FQ = "seismostats.analysis.estimate_mc:"


@unit("estimate_mc_maxc", ["C08", "C13", "C14"], [FQ + "estimate_mc_maxc"], cases=300)
class MaxC(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 25)

        def gen(g, k):
            x = gen_mags(g, k).astype(float)
            if g.random() < 0.4:
                x = np.where(g.random(k) < 0.3, np.nan, x)
            return x
        return {"x": V.arr("x", n, nan=True, gen=gen), "d": V.real("d", gt=0, gen=gen_width),
                "cf": V.real("cf", gen=lambda g: [0.2, 0.0, -0.1, 0.5][int(g.integers(4))])}

    def pre(self, S, a):
        x = a["x"]
        return [a["d"] > 1e-9, S.exists(S.len(x), lambda i: S.not_(S.isnan(S.at(x, i))))]

    def run(self, a):
        return get("analysis.estimate_mc:estimate_mc_maxc")(a["x"], a["d"], correction_factor=a["cf"])

    def post(self, P, S, a, r):
        x, d = a["x"], a["d"]
        present = S.where(S.len(x), lambda i: S.not_(S.isnan(S.at(x, i))))
        s = Fmd(S, {"x": S.select(x, present), "d": d, "w": None})
        count = lambda j: s.of(lambda k: S.eq(k, s.lo + S.real(j)))
        top = S.max(s.m, count)
        j = S.first(0, s.m, lambda j: count(j) >= top)
        P.eq("smallest of the fullest bins plus the correction", r[0], (s.lo + S.real(j)) * d + a["cf"])
        P.eq("correction factor reported", r[1], {"correction_factor": a["cf"]})


@unit("maxc_order", ["C08"], [FQ + "estimate_mc_maxc"], symbolic=False, cases=100,
      why_bounded="relates two executions on permuted inputs; follows from the counts of estimate_mc_maxc's contract")
class MaxCOrder(MaxC):
    def run(self, a):
        f = get("analysis.estimate_mc:estimate_mc_maxc")
        x = a["x"]
        p = np.random.default_rng(len(x)).permutation(len(x))
        return (f(x, a["d"], correction_factor=a["cf"])[0], f(x[p], a["d"], correction_factor=a["cf"])[0],
                f(x[~np.isnan(x)], a["d"], correction_factor=a["cf"])[0])

    def post(self, P, S, a, r):
        P.eq("order is irrelevant", r[1], r[0])
        P.eq("NaN is ignored", r[2], r[0])
