"""C17: Gardner-Knopoff declustering."""
import numpy as np

import z3

from pyvc.core import Ctx, SBool, SNum
from pyvc.runtime import State
from pyvc.spec import CON, SYM
from .common import Unit, get, mod, unit

W = "seismostats.analysis.declustering.distance_time_windows:"
WM = "analysis.declustering.distance_time_windows"
GK = "seismostats.analysis.declustering.dec_gardner_knopoff:GardnerKnopoffType1._decluster"
HV = "seismostats.analysis.declustering.utils:haversine"
R = 6371.227


def gk(S, m):
    return (S.pow(10, 0.1238 * m + 0.983),
            S.ite(m >= 6.5, S.pow(10, 0.032 * m + 2.7389), S.pow(10, 0.5409 * m - 0.547)))


def gruenthal(S, m):
    return (S.exp(1.77 + S.sqrt(0.037 + 1.02 * m)),
            S.ite(m >= 6.5, S.pow(10, 2.8 + 0.024 * m), S.abs(S.exp(-3.95 + S.sqrt(0.62 + 17.32 * m)))))


def uhrhammer(S, m):
    return S.exp(-1.024 + 0.804 * m), S.exp(-2.87 + 1.235 * m)


WINDOWS = {"GardnerKnopoffWindow": gk, "GruenthalWindow": gruenthal, "UhrhammerWindow": uhrhammer}


class Days:
    """pd.Timedelta as a number of days"""
    @staticmethod
    def Timedelta(days):
        return days


@unit("declustering_windows", ["C17", "C14"], [W + "BaseDistanceTimeWindow.__call__"] +
      [W + c + "._calc" for c in WINDOWS], cases=200)
class Windows(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 20)
        return {"c": V.choice("window", list(WINDOWS)), "cut": V.choice("cutoff given", [True, False]) and
                V.real("cutoff", lo=0, gen=lambda g: float(g.choice([0, 0.5, 10, 1000]))) or None,
                "m": V.arr("m", n, lo=0, gen=lambda g, k: np.round(g.random(k) * 9, 1))}

    def run(self, a):
        if Ctx.cur is not None:
            mod(WM).pd = Days
        return get(WM + ":" + a["c"])(time_cutoff=a["cut"])(a["m"])

    def post(self, P, S, a, r):
        f, m, n = WINDOWS[a["c"]], a["m"], S.len(a["m"])
        t = lambda i: f(S, S.at(m, i))[1]
        if a["cut"] is not None:
            u = t
            t = lambda i: S.minimum(S.maximum(u(i), S.real(S.num(0))), a["cut"])
        P.eq("space window", r[0], S.seq(n, lambda i: f(S, S.at(m, i))[0]))
        got = r[1]
        if not S.symbolic:
            got = np.array([x.value / 86400e9 for x in got])
        P.eq("time window", got, S.seq(n, t), **({} if S.symbolic else {"atol": 1e-12}))


def gen_angle(g, k, lim):
    x = np.round(g.uniform(-lim, lim, k), 2)
    j = int(g.integers(4))
    return x if j else np.zeros(k) + (lim if g.random() < 0.5 else 0)


def hav(S, lo1, la1, lo2, la2):
    c = np.pi / 180
    s = lambda x: S.sin(x / 2)
    h = s(c * la1 - c * la2) ** 2 + S.cos(c * la1) * S.cos(c * la2) * s(c * lo1 - c * lo2) ** 2
    return h


class Points(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 6)
        a = {"n": n, "lo0": V.real("longitude", gen=lambda g: round(float(g.uniform(-180, 180)), 2)),
             "la0": V.real("latitude", gen=lambda g: round(float(g.uniform(-90, 90)), 2))}

        def points(lim, c, opposite):
            def gen(g, k):
                x = gen_angle(g, k, lim)
                if j < 3 and k:          # the same, the opposite or a neighbouring point
                    x[0] = [c, opposite, c + 1e-7][j]
                return x
            return gen
        j = 9 if V.symbolic else int(V.rng.integers(5))
        lo0, la0 = (0, 0) if V.symbolic else (a["lo0"], a["la0"])
        a["lo"] = V.arr("longitudes", n, gen=points(180, lo0, lo0 - 180 * (1 if lo0 > 0 else -1)))
        a["la"] = V.arr("latitudes", n, gen=points(90, la0, -la0))
        return a


@unit("haversine", ["C17", "C14"], [HV], cases=400)
class Haversine(Points):
    """the haversine formula; against the angle between the position vectors where it is evaluated"""

    def run(self, a):
        return get("analysis.declustering.utils:haversine")(a["lo"], a["la"], a["lo0"], a["la0"])

    def post(self, P, S, a, r):
        P.eq("one distance per point", S.len(r), a["n"])
        if S.symbolic:
            def d(i):
                h = S.minimum(hav(S, S.at(a["lo"], i), S.at(a["la"], i), a["lo0"], a["la0"]), S.num(1))
                return 2 * R * S.arctan2(S.sqrt(h), S.sqrt(1 - h))
            P.eq("haversine formula", r, S.seq(a["n"], d))
            return

        def vec(lo, la):
            lo, la = np.radians(lo), np.radians(la)
            return np.array([np.cos(la) * np.cos(lo), np.cos(la) * np.sin(lo), np.sin(la)])
        v = vec(a["lo0"], a["la0"])
        want = [R * np.arctan2(np.linalg.norm(np.cross(vec(x, y), v)), np.dot(vec(x, y), v)) for x, y in zip(a["lo"], a["la"])]
        P.eq("great-circle distance", r, np.array(want), atol=1e-3)


@unit("haversine_symmetric", ["C17"], [HV], cases=200)
class Symmetric(Points):
    """the distance does not depend on which point is the target, and is zero for coincident points"""

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        f = get("analysis.declustering.utils:haversine")
        one = lambda v: S.seq(1, lambda i: v)
        x, y = S.at(a["lo"], 0), S.at(a["la"], 0)
        return (f(one(x), one(y), a["lo0"], a["la0"]), f(one(a["lo0"]), one(a["la0"]), x, y),
                f(one(x), one(y), x, y))

    def post(self, P, S, a, r):
        P.eq("symmetric", S.at(r[0], 0), S.at(r[1], 0), **({} if S.symbolic else {"atol": 1e-5}))
        P.eq("zero for coincident points", S.at(r[2], 0), S.real(S.num(0)), **({} if S.symbolic else {"atol": 1e-5}))


def reference(m, t, lo, la, space, days, prop):
    """the procedure, event by event; times in whole seconds"""
    import datetime as dt
    n = len(m)
    order = sorted(range(n), key=lambda i: (-m[i], t[i]))
    sec = [int(np.datetime64(x, "s").astype(int)) for x in t]
    taken, flags = [False] * n, [False] * n
    v = lambda i: np.array([np.cos(np.radians(la[i])) * np.cos(np.radians(lo[i])),
                            np.cos(np.radians(la[i])) * np.sin(np.radians(lo[i])), np.sin(np.radians(la[i]))])
    edge = False
    for i in order:
        if taken[i]:
            continue
        flags[i] = True
        w = days[i] * 86400
        for j in range(n):
            if taken[j]:
                continue
            d = sec[j] - sec[i]
            dist = R * np.arctan2(np.linalg.norm(np.cross(v(i), v(j))), np.dot(v(i), v(j)))
            # whole days and coincident points are exact; elsewhere a boundary may be missed by rounding
            whole = w == round(w) and prop in (0.0, 1.0)
            edge |= j != i and (min(abs(d - w), abs(d + w * prop)) < 1.5 and w > 0 and not whole
                                or abs(dist - space[i]) < 1e-6 and not (lo[i] == lo[j] and la[i] == la[j]))
            if -w * prop <= d <= w and (dist <= space[i] or i == j):
                taken[j] = True
        taken[i] = True
    return flags, edge


@unit("gardner_knopoff", ["C17", "C14"], [GK], symbolic=False, cases=250,
      why_bounded="whole catalogues through pandas; the procedure is proved over its parts (gardner_knopoff_procedure)")
class GardnerKnopoff(Unit):
    def inputs(self, V):
        g = V.rng
        n = int(g.integers(1, 25))
        a = {"n": n, "m": V.arr("m", n, gen=lambda g, k: np.round(g.exponential(0.8, k) + 2, 1)),
             "t": V.arr("days", n, gen=lambda g, k: np.round(g.random(k) * float(g.choice([3, 60, 1500])), 3)),
             "lo": V.arr("lo", n, gen=lambda g, k: np.round(8 + g.random(k) * float(g.choice([0.05, 0.5, 3])), 3)),
             "la": V.arr("la", n, gen=lambda g, k: np.round(46 + g.random(k) * float(g.choice([0.05, 0.5, 2])), 3))}
        if V.choice("repeated times", [False, False, True]):
            a["t"] = V.arr("days again", n, gen=lambda g, k: np.floor(a["t"]))
        if V.choice("repeated places", [False, False, True]):
            a["lo"], a["la"] = V.arr("lo again", n, gen=lambda g, k: np.round(a["lo"])), V.arr("la again", n, gen=lambda g, k: np.round(a["la"]))
        a["w"] = V.choice("window", list(WINDOWS) + ["constant"])
        a["flat"] = V.choice("constant km", [0.0, 0.0, 20.0]), float(V.choice("constant days", [0, 1, 5]))
        a["cut"] = V.choice("cutoff", [None, None, 0, 1.0, 30])
        a["prop"] = V.choice("fs_time_prop", [0.0, 0.3, 1.0, 1.0])
        a["index"] = V.choice("index", ["range", "shifted", "shuffled", "repeated", "names"])
        return a

    def catalog(self, a):
        import pandas as pd
        base = pd.Timestamp("2020-01-01")
        n = a["n"]
        idx = {"range": range(n), "shifted": range(5, 5 + n), "shuffled": np.random.default_rng(n).permutation(n),
               "repeated": [0] * n, "names": [f"e{i}" for i in range(n)]}[a["index"]]
        a["times"] = [base + pd.Timedelta(seconds=round(x * 86400)) for x in a["t"]]
        df = pd.DataFrame({"time": a["times"], "magnitude": np.array(a["m"], dtype=float), "longitude": a["lo"],
                           "latitude": a["la"], "other": 1}, index=list(idx))
        return get("catalogs.catalog:Catalog")(df) if n % 2 else df

    def run(self, a):
        c = self.catalog(a)
        before = c.copy(deep=True)
        a["same"] = lambda: c.equals(before) and list(c.index) == list(before.index) and list(c.columns) == list(before.columns)
        if a["w"] == "constant":
            class Constant(get(WM + ":BaseDistanceTimeWindow")):
                def _calc(self, magnitude):
                    return np.full(len(magnitude), a["flat"][0]), np.full(len(magnitude), a["flat"][1])
            win = Constant(time_cutoff=a["cut"])
        else:
            win = get(WM + ":" + a["w"])(time_cutoff=a["cut"])
        return get("analysis.declustering:GardnerKnopoffType1")(win, fs_time_prop=a["prop"])(c)

    def post(self, P, S, a, r):
        n = a["n"]
        m = [float(x) for x in a["m"]]
        calc = (lambda S, x: a["flat"]) if a["w"] == "constant" else WINDOWS[a["w"]]
        sp = [float(calc(S, np.float64(x))[0]) for x in m]
        ts = [float(calc(S, np.float64(x))[1]) for x in m]
        if a["cut"] is not None:
            ts = [min(max(x, 0), a["cut"]) for x in ts]
        want, edge = reference(m, [np.datetime64(t) for t in a["times"]], a["lo"], a["la"], sp, ts, a["prop"])
        P.check("the catalogue is unchanged", a["same"]())
        P.check("one flag per event", len(r) == n and np.asarray(r).dtype == bool)
        big = min(range(n), key=lambda i: (-m[i], a["times"][i]))
        P.check("the largest event is a main shock", bool(r[big]))
        if not edge:
            P.eq("main shocks", np.asarray(r, dtype=float), np.array(want, dtype=float))


# ---- the procedure over its parts ------------------------------------------

class Column:
    """a catalogue column: pandas' values, index order kept"""

    def __init__(self, a):
        self.a = a
        self.values = a

    def astype(self, dtype, errors="raise"):
        if dtype != "datetime64[s]":
            raise TypeError(dtype)
        return self


class Frame:
    """the part of a data frame the procedure uses; times are whole seconds"""
    columns = ("magnitude", "time", "longitude", "latitude")

    def __init__(self, a, cols):
        self.a, self.cols = a, cols

    def _pyvc_len(self):
        return self.a["n"]

    def reset_index(self, drop=False):
        if drop is not True:
            raise TypeError("the index becomes a column")
        return self

    @property
    def n(self):
        return SYM.num(self.a["n"]).t

    def __getitem__(self, k):
        if isinstance(k, (list, tuple, set)):
            return Frame(self.a, {c: self.cols[c] for c in k})
        return Column(self.cols[k]) if k == "time" else self.cols[k]

    def __getattr__(self, k):
        if k in self.__dict__.get("cols", ()):
            return self[k]
        raise AttributeError(k)

    def sort_values(self, by, ascending=True, kind="quicksort"):
        """pandas' sort: a permutation of the rows in lexicographic order of the keys"""
        a = self.a
        asc = ascending if isinstance(ascending, (list, tuple)) else [ascending] * len(by)
        keys = [(self.cols[c], up) for c, up in zip(by, asc)]

        def before(i, j, ks):
            (c, up), rest = ks[0], ks[1:]
            u, v = SYM.at(c, i), SYM.at(c, j)
            lt = u < v if up else v < u
            return lt if not rest else SYM.or_(lt, SYM.and_(SYM.eq(u, v), before(i, j, rest)))
        o = a["o"]
        Ctx.cur.fact(lambda k: SYM.implies(SYM.and_(SNum(k) >= 0, SNum(k) + 1 < a["n"]), SYM.not_(
            before(o(SNum(k) + 1), o(SNum(k)), keys))).t, 1, None, "sorted rows")
        return Ordered(a, self.cols)


class Ordered:
    def __init__(self, a, cols):
        self.cols, self.o, self.n = cols, a["o"], a["n"]
        self.index = SYM.seq(self.n, self.o)

    def __getitem__(self, k):
        return SYM.seq(self.n, lambda i: SYM.at(self.cols[k], self.o(i)))


def _gk_loop(S, k, L):
    a = _gk_loop.a
    c = Ctx.cur
    c.fact(lambda j: a["step"](k, SNum(j)).t, 1, None, "the procedure at one event")
    c.assume(S.eq(a["next"](k + 1), S.ite(S.eq(a["id"](k, a["o"](k)), 0), a["next"](k) + 1, a["next"](k))).t)
    n = a["n"]
    free = lambda j: S.eq(a["id"](k, j), 0)
    return State({"cluster_ids": S.seq(n, lambda j: a["id"](k, j)), "cluster_id": a["next"](k),
                  "mainshock_flags": S.seq(n, lambda j: S.or_(free(j), a["main"](k, j)))},
                 lambda cur: [a["next"](k) >= 1,
                              S.forall(n, lambda j: S.or_(S.not_(free(j)), S.not_(a["main"](k, j)))),
                              S.forall(k, lambda l: S.not_(free(a["o"](l))))])


@unit("gardner_knopoff_procedure", ["C17", "C14"], [GK])
class Procedure(Unit):
    """main shocks as defined step by step, over arbitrary windows and distances (zero for coincident points)"""
    loops = {("GardnerKnopoffType1._decluster", 0): _gk_loop}
    cases = 0

    def inputs(self, V):
        n = V.int("n", 0)
        a = {"n": n}
        for k in ("magnitude", "time", "longitude", "latitude"):
            a[k] = V.arr(k, n)
        a["prop"] = V.real("fs_time_prop", lo=0)
        a["sw"], a["tw"] = V.arr("space windows", n, lo=0), V.arr("time windows", n, lo=0)
        c = Ctx.cur
        I, Bo = z3.IntSort(), z3.BoolSort()
        pos, inv = c.func("position", I, I), c.func("inverse", I, I)
        a["o"] = lambda k: SNum(pos(SYM.num(k).t))
        a["inv"] = lambda k: SNum(inv(SYM.num(k).t))
        nn = n.t
        c.fact(lambda k: z3.Implies(z3.And(k >= 0, k < nn), z3.And(pos(k) >= 0, pos(k) < nn, inv(pos(k)) == k)), 1, None,
               "a permutation")
        c.fact(lambda k: z3.Implies(z3.And(k >= 0, k < nn), z3.And(inv(k) >= 0, inv(k) < nn, pos(inv(k)) == k)), 1, None,
               "a permutation")
        idf, mf, nf = c.func("cluster", I, I, I), c.func("mainshock", I, I, Bo), c.func("next_id", I, I)
        a["id"] = lambda k, j: SNum(idf(SYM.num(k).t, SYM.num(j).t))
        a["main"] = lambda k, j: SBool(mf(SYM.num(k).t, SYM.num(j).t))
        a["next"] = lambda k: SNum(nf(SYM.num(k).t))

        def near(i, j):
            dt = SYM.at(a["time"], j) - SYM.at(a["time"], i)
            d = SYM.fn("distance", *[SYM.at(a[q], p) for p in (j, i) for q in ("longitude", "latitude")])
            return SYM.and_(dt >= -SYM.at(a["tw"], i) * a["prop"], dt <= SYM.at(a["tw"], i), d <= SYM.at(a["sw"], i))

        def step(k, j):
            i = a["o"](k)
            new = SYM.eq(a["id"](k, i), 0)
            takes = SYM.and_(new, SYM.eq(a["id"](k, j), 0), near(i, j))
            return SYM.and_(SYM.eq(a["id"](k + 1, j), SYM.ite(takes, a["next"](k), a["id"](k, j))),
                            SYM.iff(a["main"](k + 1, j), SYM.or_(a["main"](k, j), SYM.and_(new, SYM.eq(i, j)))))
        a["step"] = step
        c.fact(lambda j: z3.And(idf(0, j) == 0, z3.Not(mf(0, j))), 1, None, "before the first event")
        c.assume(nf(0) == 1)
        # coincident points are at distance zero (haversine_symmetric)
        lo, la = a["longitude"], a["latitude"]
        c.fact(lambda i: SYM.eq(SYM.fn("distance", SYM.at(lo, SNum(i)), SYM.at(la, SNum(i)), SYM.at(lo, SNum(i)),
                                       SYM.at(la, SNum(i))), 0).t, 1, None, "a point is at distance zero from itself")
        _gk_loop.a = a
        return a

    def run(self, a):
        m = mod("analysis.declustering.dec_gardner_knopoff")
        dist = lambda lo, la, lo0, la0: SYM.seq(SYM.len(lo), lambda i: SYM.fn(
            "distance", SYM.at(lo, i), SYM.at(la, i), lo0, la0))
        win = lambda mag: (a["sw"], a["tw"])
        f = Frame(a, {k: a[k] for k in Frame.columns})
        m.haversine = dist
        return m.GardnerKnopoffType1(win, fs_time_prop=a["prop"])(f)

    def post(self, P, S, a, r):
        n, o, m, t = a["n"], a["o"], a["magnitude"], a["time"]
        P.forall("from the largest magnitude, earlier first among equals", n - 1, lambda k: S.or_(
            S.at(m, o(k)) > S.at(m, o(k + 1)),
            S.and_(S.eq(S.at(m, o(k)), S.at(m, o(k + 1))), S.at(t, o(k)) <= S.at(t, o(k + 1)))))
        P.eq("one flag per event", S.len(r), n)
        P.forall("true exactly for the main shocks", n, lambda j: S.iff(r[j], a["main"](n, j)))
