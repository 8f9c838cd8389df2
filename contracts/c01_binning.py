"""C01: binning of values.  C02: frequency-magnitude distributions."""
from decimal import Decimal
from fractions import Fraction

import numpy as np

from .common import Unit, get, gen_weights, stub, unit

M = "utils.binning"
FQ = "seismostats.utils.binning:"
EPS = 1e-12
WIDTHS = [0.1, 0.01, 0.2, 0.5, 1.0, 0.05, 0.25, 2.0, 0.001, 0.3, 0.7, 1, 5, 1.5, 0.025]


def gen_width(rng):
    return WIDTHS[int(rng.integers(len(WIDTHS)))]


def binned(S, x, d):
    """the multiple of d nearest to x, halves up"""
    return S.floor(x / d + 0.5 + EPS) * d


SCALED = [2.5e-05, 1e-05, 5e-07, 1.25e-06, 4e-05, 3e-06, 100.0, 250.0, 25, 0.0005]


def gen_scaled(rng, n, d):
    """values around multiples of a width of another order of magnitude"""
    D = Fraction(Decimal(str(d)))
    f = [Fraction(0), Fraction(1, 2), Fraction(1, 5), Fraction(7, 10)][int(rng.integers(4))]
    return np.array([float(D * (int(k) + f)) for k in rng.integers(-300, 300, n)], dtype=float)


def scaled(V):
    if V.symbolic or V.rng.random() < 0.7:
        return None
    return SCALED[int(V.rng.integers(len(SCALED)))]


def gen_values(rng, n):
    k = rng.integers(5)
    if k == 0:
        return np.round(rng.random(n) * 8 - 3, 1)
    if k == 1:       # halves in decimal notation
        return np.round(np.round(rng.random(n) * 8 - 3, 1) + 0.05, 2)
    if k == 2:
        return rng.normal(0, 3, n)
    if k == 3:
        return rng.integers(-6, 9, n)
    return np.round(rng.random(n) * 40 - 20, 3)


def q_of(x, d):
    return Fraction(Decimal(str(x))) / Fraction(Decimal(str(d)))


class BinBase(Unit):
    def raises(self, S, a):
        return [(a["d"] < EPS, ValueError, "bin width zero")]


def bin_post(P, S, r, x, d):
    if S.symbolic:
        P.eq("d * floor(x/d + 1/2)", r, binned(S, x, d))
    k = r / d
    if S.symbolic:
        P.check("a multiple of d", S.eq(k, S.floor(k)))
        P.check("nearest to x, halves up", S.and_(k - x / d <= 0.5 + 1e-9, x / d - k < 0.5))
    else:
        kk = int(round(float(k)))
        P.check(f"a multiple of d ({r})", float(r) == float(Fraction(Decimal(str(d))) * kk))
        q = q_of(x, d)
        P.check(f"nearest to x, halves up ({x} to {r})",
                kk - q <= Fraction(1, 2) + Fraction(1, 10 ** 9) and q - kk < Fraction(1, 2))


@unit("bin_to_precision_scalar", ["C01"], [FQ + "bin_to_precision"], cases=150)
class BinScalar(BinBase):
    def inputs(self, V):
        sc = scaled(V)
        return {"x": V.real("x", gen=lambda g: (gen_scaled(g, 1, sc) if sc else gen_values(g, 1))[0].item()),
                "d": V.real("d", lo=0, gen=lambda g: sc or [0.0, gen_width(g)][int(g.random() < 0.95)])}

    def run(self, a):
        return get(M + ":bin_to_precision")(a["x"], a["d"])

    def post(self, P, S, a, r):
        bin_post(P, S, r, a["x"], a["d"])


@unit("bin_to_precision", ["C01", "C14"], [FQ + "bin_to_precision"], cases=150)
class BinArr(BinBase):
    def inputs(self, V):
        n = V.int("n", 0, 12)
        sc = scaled(V)
        return {"x": V.arr("x", n, gen=lambda g, k: gen_scaled(g, k, sc) if sc else gen_values(g, k),
                           is_list=V.choice("list", [False, True])),
                "d": V.real("d", lo=0, gen=lambda g: sc or [0.0, gen_width(g)][int(g.random() < 0.95)])}

    def run(self, a):
        return get(M + ":bin_to_precision")(a["x"], a["d"])

    def post(self, P, S, a, r):
        n = S.len(a["x"])
        P.check("one result per value", S.eq(S.len(r), n))
        if S.symbolic:
            P.eq("elementwise, in order", r, S.seq(n, lambda i: binned(S, S.at(a["x"], i), a["d"])))
        else:
            P.check("an array", isinstance(r, np.ndarray))
            for i in range(n):
                bin_post(P, S, r[i], a["x"][i], a["d"])


@unit("bin_to_precision_series", ["C01", "C14"], [FQ + "bin_to_precision"], symbolic=False,
      why_bounded="pandas Series input: pandas arithmetic is outside the verifier", cases=60)
class BinSeries(BinBase):
    def inputs(self, V):
        import pandas as pd
        n = V.int("n", 0, 12)
        return {"x": V.obj("x", None, lambda g: pd.Series(gen_values(g, n), index=np.arange(n)[::-1] + 3)),
                "d": V.real("d", lo=0, gen=lambda g: gen_width(g))}

    def run(self, a):
        return get(M + ":bin_to_precision")(a["x"], a["d"])

    def post(self, P, S, a, r):
        P.check("one result per value, same index", list(r.index) == list(a["x"].index))
        for i in range(len(r)):
            bin_post(P, S, r.iloc[i], a["x"].iloc[i], a["d"])


@unit("bin_none", ["C01"], [FQ + "bin_to_precision"], cases=2)
class BinNone(Unit):
    def inputs(self, V):
        return {"d": V.real("d", gt=0)}

    def raises(self, S, a):
        return [(True, ValueError, "no values")]

    def run(self, a):
        return get(M + ":bin_to_precision")(None, a["d"])


@unit("bin_idempotent", ["C01"], [FQ + "bin_to_precision"], uses=[], cases=150)
class BinIdem(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 12)
        sc = scaled(V)
        return {"x": V.arr("x", n, gen=lambda g, k: gen_scaled(g, k, sc) if sc else gen_values(g, k)),
                "d": V.real("d", gt=1e-9, gen=lambda g: sc or gen_width(g))}

    def run(self, a):
        f = get(M + ":bin_to_precision")
        y = f(a["x"], a["d"])
        return y, f(y, a["d"])

    def post(self, P, S, a, r):
        P.eq("binning a binned array changes nothing", r[1], r[0], rtol=0, atol=0)


@stub(FQ + "bin_to_precision", by=["bin_to_precision", "bin_to_precision_scalar"])
def _bin(S, a, ctx):
    from pyvc.core import SArr
    if bool(S.num(a.delta_x) < EPS):
        raise ValueError("delta_x cannot be 0")
    x = a.x
    if isinstance(x, (SArr, list, np.ndarray)):
        f = S.arrlike(x).snap()
        return S.seq(S.len(x), lambda i: binned(S, f(i.t), a.delta_x))
    return binned(S, S.num(x), a.delta_x)


# ---- binning_test ---------------------------------------------------------

def gen_grid_values(rng, n):
    d = gen_width(rng)
    off = [0.0, 0.03, 0.5, -1.2][int(rng.integers(4))]
    k = rng.integers(0, 12, n)
    a = np.round(k * d + off, 6)
    a = a[np.abs(a) < 7]
    if len(a) < n:
        a = np.concatenate([a, np.full(n - len(a), a[0] if len(a) else off)])
    if n and rng.random() < 0.35:
        a[int(rng.integers(n))] += [d / 2, d / 10, 0.013, 1e-6][int(rng.integers(4))]
    return a


@unit("binning_test", ["C01", "C14"], [FQ + "binning_test"], cases=250)
class BinningTest(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 10)
        nan = V.choice("nan", [False, True])
        return {"x": V.arr("x", n, nan=nan, gen=gen_grid_values, is_list=V.choice("list", [False, True])),
                "d": V.real("d", gt=1e-6, gen=gen_width)}

    def pre(self, S, a):
        n = S.len(a["x"])
        return [S.or_(n == 0, S.exists(n, lambda i: S.not_(S.isnan(S.at(a["x"], i)))))]

    def raises(self, S, a):
        return [(S.len(a["x"]) == 0, ValueError, "no entry")]

    def run(self, a):
        return get(M + ":binning_test")(a["x"], a["d"], check_larger_binning=False)

    def post(self, P, S, a, r):
        x, d = a["x"], a["d"]
        n = S.len(x)
        if S.symbolic:
            sel = S.where(n, lambda i: S.not_(S.isnan(S.at(x, i))))
            y = S.select(x, sel)
            m = S.len(y)
            lo = S.min(m, lambda j: S.at(y, j))
            near = S.forall(m, lambda j: S.abs(S.at(y, j) - lo - binned(S, S.at(y, j) - lo, d))
                            <= 1e-12 * (1 + S.abs(S.at(y, j) - lo)))
            P.check("accepts only values on the grid", S.implies(r, near))
        else:
            y = [Fraction(Decimal(repr(float(v)))) for v in x if v == v]
            D = Fraction(Decimal(str(d)))
            lo = min(y)
            dist = max(min((v - lo) % D, D - (v - lo) % D) for v in y)
            if dist < Fraction(1, 10 ** 16):
                P.check("accepts values on the grid", r)
            elif dist > Fraction(1, 10 ** 12):
                P.check("accepts only values on the grid", not r)


@unit("binning_test_grid", ["C01", "C14"], [FQ + "binning_test"], cases=60)
class BinningGrid(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 10)
        k = V.arr("k", n, kind="i", lo=0, hi=12)
        d = V.real("d", gt=1e-6, gen=lambda g: [0.1, 0.01, 0.2, 0.5, 0.05, 0.25, 0.3][int(g.integers(7))])
        off = V.real("off", gen=lambda g: [0.0, 0.5, -1.2, 1.4][int(g.integers(4))])
        if V.symbolic:
            from pyvc.spec import SYM as S
            x = S.seq(n, lambda i: off + S.real(S.at(k, i)) * d)
        else:
            x = np.round(off + k * d, 6)
        return {"n": n, "x": x, "d": d}

    def run(self, a):
        return get(M + ":binning_test")(a["x"], a["d"], check_larger_binning=False)

    def post(self, P, S, a, r):
        P.check("accepts values on a grid of width d", r)


@unit("binning_test_zero", ["C01"], [FQ + "binning_test"], cases=40)
class BinningZero(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 10)
        return {"x": V.arr("x", n, gen=gen_grid_values)}

    def pre(self, S, a):
        return [S.len(a["x"]) >= 1]

    def run(self, a):
        return get(M + ":binning_test")(a["x"], 0, check_larger_binning=False)

    def post(self, P, S, a, r):
        P.check("every array is accepted with width 0", r)
