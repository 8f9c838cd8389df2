"""What the b- and a-value estimators have to do, and inputs for them."""
import ast
import inspect
import textwrap

import numpy as np

from .common import LN10, gen_weights, get, wmean, wtot
from .c01_binning import binned

GRID = [0.1, 0.2, 0.5, 0.25, 0.01, 1.0, 0.0, 0.0]


def on_grid(S, x, d):
    """the magnitudes are binned to d"""
    if S.symbolic:
        return S.functional("binned", [x], [d]) > 0
    if d == 0 or len(x) == 0:
        return True
    from fractions import Fraction
    from decimal import Decimal
    y = [Fraction(Decimal(repr(float(v)))) for v in x if v == v]
    D = Fraction(Decimal(str(float(d))))
    lo = min(y)
    dist = max(min((v - lo) % D, D - (v - lo) % D) for v in y)
    if dist < Fraction(1, 10 ** 17):
        return True
    if dist > Fraction(1, 10 ** 12):
        return False
    return bool(get("utils.binning:binning_test")(np.array(x), d, check_larger_binning=False))


class Catalogue:
    """events with magnitudes on the grid mc + k*delta_m (delta_m > 0) or continuous"""

    def __init__(self, rng, n):
        self.rng, self.n = rng, n
        k = rng.random()
        if k < 0.25:                # exact in binary, so that the half-bin boundary is met
            self.dm = [0.5, 0.25, 1.0][int(rng.integers(3))]
            self.mc = [1.0, 0.0, -0.5, 2.25][int(rng.integers(4))]
            off = self.dm / 2 if rng.random() < 0.5 else 0.0
            self.k = rng.integers(-3, 6, n)
            self.x = self.mc + off + self.k * self.dm
        elif k < 0.7:
            self.dm = [0.1, 0.2, 0.05, 0.01, 0.3][int(rng.integers(5))]
            self.mc = round(float(rng.integers(-10, 20)) * self.dm, 6) if rng.random() < 0.8 else 0.0
            self.k = rng.integers(-6, 12, n)
            self.x = np.round(self.mc + self.k * self.dm, 6)
        else:
            self.dm = 0.0
            self.mc = [0.0, 1.0, 1.37, -0.5][int(rng.integers(4))]
            self.x = self.mc + np.round(rng.exponential(0.5, n) - 0.3, int(rng.integers(1, 5)))
            if rng.random() < 0.3:
                self.x = np.where(rng.random(n) < 0.3, self.mc, self.x)

    def dmc(self):
        r = self.rng
        if self.dm == 0:
            return [None, 0.0, 0.1234567, 0.5][int(r.integers(4))]
        return [None, self.dm, self.dm * 2, 0.0, self.dm * 3][int(r.integers(5))]

    def times(self):
        r = self.rng
        n = self.n
        t = np.round(np.cumsum(r.random(n) + 0.01) * 100, 3)
        if n and r.random() < 0.8:
            t = r.permutation(t)
        if r.random() < 0.4:
            t = np.datetime64("2020-01-01T00:00:00") + (t * 1000).astype(int).astype("timedelta64[%s]" % ["ns", "ms", "s", "m"][int(r.integers(4))])
        return t


def store_names(cls):
    """attributes assigned anywhere in the class hierarchy"""
    out = set()
    for c in cls.__mro__:
        if not c.__module__.startswith("seismostats"):
            continue
        for nd in ast.walk(ast.parse(textwrap.dedent(inspect.getsource(c)))):
            if isinstance(nd, ast.Attribute) and isinstance(nd.ctx, ast.Store) and \
                    isinstance(nd.value, ast.Name) and nd.value.id == "self":
                a = nd.attr
                if a.startswith("__") and not a.endswith("__"):
                    a = f"_{c.__name__.lstrip('_')}{a}"
                out.add(a)
    return out


def make(cls, a):
    """an estimator, new or used before"""
    est = cls()
    if a["reused"] is False:
        return est
    if a["sym"]:
        from pyvc.runtime import Poison
        for nm in store_names(cls) | set(vars(est)):
            o = getattr(cls, nm, None)
            if isinstance(o, property):
                continue
            est.__dict__[nm] = Poison("stale " + nm)
        return est
    rng = np.random.default_rng(a["reused"])
    for _ in range(int(rng.integers(1, 3))):
        n = int(rng.integers(0, 15))
        c = Catalogue(rng, n)
        kw = prior_args(cls, c)
        if rng.random() < 0.2:
            kw["mc"] = 50.0
        try:
            est.calculate(c.x, **kw)
            if rng.random() < 0.5:
                est.std
        except Exception:
            pass
    return est


def prior_args(cls, c):
    r = c.rng
    ps = inspect.signature(cls.calculate).parameters
    kw = {"mc": c.mc, "delta_m": c.dm}
    if "weights" in ps and r.random() < 0.5:
        kw["weights"] = gen_weights(r, c.n if r.random() < 0.9 else c.n + 1)
    if "times" in ps and r.random() < 0.8 or "times" in ps and ps["times"].default is inspect.Parameter.empty:
        kw["times"] = c.times()
    if "dmc" in ps:
        kw["dmc"] = c.dmc()
    if "m_ref" in ps and r.random() < 0.5:
        kw["m_ref"], kw["b_value"] = 1.0, 1.2
    if "scaling_factor" in ps and r.random() < 0.5:
        kw["scaling_factor"] = 7.0
    return kw


# ---- specification --------------------------------------------------------

def mle(S, n, f, w, mc, dm):
    """maximum likelihood b-value of the magnitudes f(0..n-1)"""
    avg = wmean(S, n, lambda i: f(i) - mc, w)
    if S.is_true(dm > 0):
        beta = S.log(1 + dm / avg) / dm
    else:
        beta = 1 / S.num(avg)
    return beta / S.log(10)


def complete(S, x, mc, dm):
    return S.where(S.len(x), lambda i: S.and_(S.not_(S.isnan(S.at(x, i))), S.at(x, i) >= mc - dm / 2))


def time_order(S, x, times, mc, dm):
    """positions of the complete events, in time order"""
    comp = complete(S, x, mc, dm)
    if times is None:
        return comp
    return S.select(comp, S.argsort(S.select(times, comp)))


class Pairs:
    """kept pairs: later event position, magnitude step, earlier event position"""

    def consecutive(self, S, x, ev, dmc, dm):
        m = S.len(ev)
        step = lambda j: S.at(x, S.at(ev, j + 1)) - S.at(x, S.at(ev, j))
        K = S.where(S.toint(S.maximum(m - 1, 0)), lambda j: step(j) >= dmc - dm / 2)
        self.n = S.len(K)
        self.later = S.seq(self.n, lambda l: S.at(ev, S.at(K, l) + 1), kind="i")
        self.early = S.seq(self.n, lambda l: S.at(ev, S.at(K, l)), kind="i")
        self.step = lambda l: step(S.at(K, l))
        return self

    def next_larger(self, S, x, ev, dmc, dm):
        m = S.len(ev)
        y = S.select(x, ev)
        nx = lambda j: next_larger(S, y, j, dmc, dm)
        K = S.where(m, lambda j: S.not_(S.eq(nx(j), 0)))
        self.n = S.len(K)
        self.later = S.seq(self.n, lambda l: S.at(ev, nx(S.at(K, l))), kind="i")
        self.early = S.seq(self.n, lambda l: S.at(ev, S.at(K, l)), kind="i")
        self.step = lambda l: S.at(y, nx(S.at(K, l))) - S.at(y, S.at(K, l))
        return self


def next_larger(S, y, j, dmc, dm):
    """position of the first later event larger by dmc, 0 if there is none"""
    n = S.len(y)
    f = S.first(j + 1, n, lambda i: S.at(y, i) - S.at(y, j) >= dmc - dm / 2)
    return S.ite(f < n, f, S.num(0))
