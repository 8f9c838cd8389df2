"""C25: b-values for unequal completeness periods."""
import contextlib
import io

import numpy as np

from pyvc.core import Ctx, SNum
from pyvc.spec import CON, SYM
from .common import LN10, Unit, get, mod, unit

KS = "analysis.bvalue.kijko_smit"
WE = "analysis.bvalue.weichert"


class Table:
    """a K x 2 table, by columns"""

    def __init__(self, a, b, k):
        self.cols, self.shape = (a, b), (k, 2)

    def __getitem__(self, key):
        i, j = key
        return self.cols[j][i]


class Times:
    """dates of known calendar years"""

    def __init__(self, years):
        self.years = years

    def _pyvc_len(self):
        return SNum(self.years.n)

    def astype(self, unit):
        return Epoch(self.years) if unit == "datetime64[Y]" else None


class Epoch(Times):
    def astype(self, kind):
        return self.years - 1970 if kind is int or getattr(kind, "__name__", "") == "int" else None


class Numpy:
    def __init__(self, np_):
        self.np_ = np_

    def __getattr__(self, name):
        return getattr(self.np_, name)

    def array(self, x, *a, **k):
        return x if isinstance(x, Times) else self.np_.array(x, *a, **k)


def dates(g, years):
    day = np.array([int(g.integers(0, 365)) for _ in years], dtype="timedelta64[D]")
    return (np.array(years, dtype=int) - 1970).astype("datetime64[Y]").astype("datetime64[D]") + day


class Completeness(Unit):
    rows = 4

    def inputs(self, V):
        K = V.choice("rows", list(range(1, self.rows + 1)))
        n = V.int("n", 1, 40)
        dm = V.real("delta_m", gt=0, gen=lambda g: float(g.choice([0.1, 0.2, 0.5])))
        a = {"K": K, "n": n, "dm": dm, "b_parameter": V.choice("b_parameter", ["b_value", "beta"])}
        if V.symbolic:
            cm, cy = V.arr("cm", K), V.arr("cy", K)
            years = V.arr("year", n, kind="i")
            a.update(cm=cm, cy=cy, years=years, table=Table(cm, cy, K), times=Times(years),
                     m=V.arr("m", n))
        else:
            g = V.rng
            edge = int(g.integers(-10, 50))
            step = np.concatenate([[0], np.cumsum(g.integers(1, 8, K - 1))]) if K > 1 else np.zeros(1)
            cm = np.round((edge + step) * dm - dm / 2, 6)
            cy = np.sort(g.choice(np.arange(1000, 2000), K, replace=False))[::-1].astype(float)
            if g.random() < 0.5:
                cy = np.sort(g.choice(np.arange(1985, 1990 + K), K, replace=False))[::-1].astype(float)
            a.update(cm=cm, cy=cy, table=np.column_stack([cm, cy]))
            years = g.integers(int(cy[-1]) - 3, int(cy[0]) + 12, n)
            years = np.where(g.random(n) < 0.3, cy[g.integers(0, K, n)].astype(int), years)
            m = np.round((edge + np.floor(g.exponential(1.0 / dm, n)) - (g.random(n) < 0.1)) * dm, 6)
            V.values.update(cm=cm.tolist(), cy=cy.tolist(), years=years.tolist(), m=m.tolist())
            a.update(years=years, m=m, times=dates(g, years))
            if g.random() < 0.3:
                a["times"] = list(a["times"])
        a["last"] = V.choice("last_year given", [True, False]) and V.real(
            "last_year", gt=0, gen=lambda g: float(int(a["cy"][0]) + int(g.integers(1, 40))))
        return a

    def complete(self, S, a, i, k):
        """event i is in sub-catalogue k: k of the completeness years are later, and it is above the edge"""
        y, cy = S.at(a["years"], i), a["cy"]
        later = S.count(a["K"], lambda j: -S.at(cy, j) < -y)
        return S.and_(later == k, S.at(a["m"], i) > S.at(a["cm"], k))

    def period(self, S, a, i, k):
        """event i is complete by row k and not by row k - 1"""
        y, cy = S.at(a["years"], i), a["cy"]
        c = S.and_(y >= S.at(cy, k), S.at(a["m"], i) > S.at(a["cm"], k))
        return c if k == 0 else S.and_(c, y < S.at(cy, k - 1))

    def number(self, S, a, k):
        return S.count(a["n"], lambda i: self.complete(S, a, i, k))

    def pre(self, S, a):
        p = [S.num(a["dm"]) > 0]
        for k in range(1, a["K"]):
            p += [S.at(a["cm"], k) >= S.at(a["cm"], k - 1), S.at(a["cy"], k) < S.at(a["cy"], k - 1)]
        t = 0
        for k in range(a["K"]):
            t = t + self.number(S, a, k)
        a["t"] = t
        p.append(t > 0)
        last = self.last(S, a)
        p.append(last > S.at(a["cy"], 0))
        return p

    def last(self, S, a):
        return S.num(a["last"]) if a["last"] is not False and a["last"] is not None else S.max(a["n"], lambda i: S.at(a["years"], i))


@unit("kijko_smit", ["C25", "C14"], ["seismostats.analysis.bvalue.kijko_smit:estimate_b_kijko_smit"],
      cases=300, split={"rows": 4, "b_parameter": 2, "last_year given": 2})
class KijkoSmit(Completeness):
    """The estimate is the event-weighted harmonic combination of the Aki estimates of the sub-catalogues"""
    def run(self, a):
        if Ctx.cur is not None and not isinstance(mod(KS).np, Numpy):
            mod(KS).np = Numpy(mod(KS).np)
        return get(KS + ":estimate_b_kijko_smit")(
            a["m"], a["times"], a["table"], last_year=a["last"] if a["last"] is not False else None,
            delta_m=a["dm"], b_parameter=a["b_parameter"])

    def post(self, P, S, a, r):
        n, K, t = a["n"], a["K"], S.real(a["t"])
        for k in range(K):
            P.forall("sub-catalogues cover the periods of the table", n,
                     lambda i: S.iff(self.complete(S, a, i, k), self.period(S, a, i, k)))
        inv = S.real(S.num(0))
        for k in range(K):
            nk = self.number(S, a, k)
            s = S.sum(n, lambda i: S.ite(self.complete(S, a, i, k), S.at(a["m"], i), S.num(0)))
            if S.is_true(nk > 0):
                aki = 1 / (s / S.real(nk) - S.at(a["cm"], k))
                inv = inv + S.real(nk) / t / aki
        beta = 1 / inv
        f = 1 if a["b_parameter"] == "beta" else S.log(S.num(10))
        P.eq("event-weighted harmonic combination", r[0], beta / f)
        P.eq("uncertainty", r[1], beta / S.sqrt(t) / f)
        d, end = S.real(S.num(0)), self.last(S, a)
        for k in range(K):
            d = d + (end - S.at(a["cy"], k)) * S.exp(-beta * (S.at(a["cm"], k) - S.at(a["cm"], 0)))
            end = S.at(a["cy"], k)
        rate = t / d
        P.eq("rate at the lowest magnitude", r[2], rate)
        P.eq("a-value", r[3], S.log10(r[2]) + beta / S.log(S.num(10)) * (S.at(a["cm"], 0) + a["dm"] / 2))


@unit("weichert", ["C25", "C14"], ["seismostats.analysis.bvalue.weichert:estimate_b_weichert"], cases=60,
      symbolic=False, why_bounded="magnitude bins through pandas.cut and groupby, beta from a numerical minimiser")
class Weichert(Completeness):
    """beta solves Weichert's equation for the binned complete events; rate, a-value and uncertainties follow from it"""

    def inputs(self, V):
        a = super().inputs(V)
        a["mag_max"] = round(float(np.max(a["m"])) + float(V.rng.integers(1, 4)) * a["dm"] + 0.5 * a["dm"], 6)
        a["mag_max"] = max(a["mag_max"], float(a["cm"][-1]) + a["dm"])
        V.values["mag_max"] = a["mag_max"]
        return a

    def groups(self, a):
        """complete events per magnitude bin: {bin: [number, completeness year]}"""
        cm, cy, c = a["cm"], a["cy"], {}
        for m, y in zip(a["m"], a["years"]):
            k = sum(1 for e in cm if m > e) - 1
            if k < 0 or y < cy[k]:
                continue
            j = int(round((m - a["dm"] / 2 - cm[0]) / a["dm"]))
            g = c.setdefault((j, cy[k]), 0)
            c[j, cy[k]] = g + 1
        return c

    def pre(self, S, a):
        a["g"] = self.groups(a)
        last = self.last(S, a)
        return [len(a["g"]) >= 2, last > a["cy"][0], all(y > 0 for j, y in a["g"])]

    def run(self, a):
        r = {}
        for p in ("b_value", "beta"):
            with contextlib.redirect_stdout(io.StringIO()):
                r[p] = get(WE + ":estimate_b_weichert")(
                    a["m"], a["times"], a["table"], a["mag_max"], last_year=a["last"] or None,
                    delta_m=a["dm"], b_parameter=p)
        return r

    def post(self, P, S, a, r):
        b, beta = r["b_value"], r["beta"]
        P.eq("beta is ln(10) b", beta[0], b[0] * LN10, rtol=1e-9)
        P.eq("uncertainty of beta is ln(10) times that of b", beta[1], b[1] * LN10, rtol=1e-9)
        for k, nm in ((2, "rate"), (3, "uncertainty of the rate"), (4, "a-value")):
            P.eq("the same " + nm, beta[k], b[k], rtol=1e-9)
        keys = sorted(a["g"])
        num = np.array([a["g"][k] for k in keys], float)
        left = np.array([a["cm"][0] + k[0] * a["dm"] for k in keys])
        t = np.array([self.last(S, a) - k[1] for k in keys])
        x = left + a["dm"] / 2

        def moments(bt):
            e = t * np.exp(-bt * (x - x.min()))
            return (e * x).sum() / e.sum(), (e * x * x).sum() / e.sum()
        n, mean = num.sum(), (num * x).sum() / num.sum()
        bt = float(beta[0])
        if np.min(x) + 1e-3 < mean < np.max(x) - 1e-3 and abs(bt) < 200 / a["dm"]:
            P.eq("Weichert's equation", moments(bt)[0], mean, rtol=0, atol=1e-6)
        k = np.exp(-bt * (x - x.min()))
        rate = n * k.sum() / (t * k).sum()
        P.eq("rate", beta[2], rate, rtol=1e-7)
        P.eq("uncertainty of the rate", beta[3], rate / np.sqrt(n), rtol=1e-7)
        P.eq("a-value", beta[4], np.log10(rate) + bt / LN10 * left.min(), rtol=1e-7, atol=1e-9)
        m1, m2 = moments(bt)
        v = m2 - m1 * m1
        if v > 1e-6 and abs(bt) * np.max(np.abs(x)) < 300:
            P.eq("uncertainty of beta", beta[1], np.sqrt(1 / (n * v)), rtol=1e-3)


class Column:
    """a column of a table: .values and sum()"""

    def __init__(self, x, total):
        self.values, self._total = x, total

    def sum(self):
        return self._total


class Groups:
    """the table of complete events per magnitude bin, column by column"""

    def __init__(self, S, n, left, start, num):
        self.mag_left_edge = left
        self.completeness_start = Column(start, None)
        self.num = Column(num, S.sum(n, lambda i: S.at(num, i)))


@unit("weichert_objective", ["C25"], ["seismostats.analysis.bvalue.weichert:_weichert_objective_function"], cases=60)
class Objective(Unit):
    """distance between the two sides of Weichert's equation"""

    def inputs(self, V):
        n = V.int("groups", 1, 6)
        return {"n": n, "beta": V.real("beta", gen=lambda g: float(np.round(g.uniform(-1, 4), 2))),
                "last": V.real("last_year", gen=lambda g: float(g.integers(1990, 2020))),
                "dm": V.real("delta_m", gt=0, gen=lambda g: float(g.choice([0.1, 0.5]))),
                "left": V.arr("left", n, gen=lambda g, k: np.round(np.sort(g.uniform(0, 6, k)), 1)),
                "start": V.arr("start", n, gen=lambda g, k: g.integers(1500, 1980, k).astype(float)),
                "num": V.arr("num", n, lo=1, kind="i", gen=lambda g, k: g.integers(1, 30, k))}

    def moments(self, S, a):
        x = lambda i: S.at(a["left"], i) + a["dm"] * 0.5
        e = lambda i: S.exp(-a["beta"] * x(i))
        t = lambda i: a["last"] - S.at(a["start"], i)
        return (S.sum(a["n"], lambda i: t(i) * x(i) * e(i)), S.sum(a["n"], lambda i: t(i) * e(i)),
                S.sum(a["n"], lambda i: S.at(a["num"], i) * x(i)), S.sum(a["n"], lambda i: S.at(a["num"], i)))

    def pre(self, S, a):
        return [self.moments(S, a)[1] != 0]

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        return get(WE + ":_weichert_objective_function")(
            a["beta"], a["last"], Groups(S, a["n"], a["left"], a["start"], a["num"]), a["dm"])

    def post(self, P, S, a, r):
        f, d, k, n = self.moments(S, a)
        P.eq("difference of the mean magnitudes", r, S.abs(f / d - k / S.real(n)))
