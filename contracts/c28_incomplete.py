"""C28: make_more_incomplete removes exactly the events shortly after a larger one."""
import numpy as np

from pyvc.runtime import State
from .common import Unit, get, unit

F = "analysis.bvalue.utils:make_more_incomplete"


def kept(S, y, t, dt, i):
    """no larger event among the earlier ones less than dt away"""
    return S.count(i, lambda j: S.and_(S.at(t, i) - S.at(t, j) < dt, S.at(y, j) > S.at(y, i))) <= 0


def _loop(S, k, L):
    y, t, dt = L.pre["magnitudes"], L.pre["times"], L.pre["delta_t"]
    return State({"idx": S.seq(S.len(y), lambda i: S.or_(i > k, kept(S, y, t, dt, i)), kind="b")})


@unit("make_more_incomplete", ["C28", "C14"], ["seismostats." + F], cases=250)
class Incomplete(Unit):
    """kept are the events with no larger one less than delta_t before them"""
    loops = {("make_more_incomplete", 0): _loop}

    def inputs(self, V):
        n = V.int("n", 0, 25)
        a = {"dates": V.choice("dates", [False, True]) if not V.symbolic else False}
        a["y"] = V.arr("y", n, gen=lambda g, k: np.round(g.exponential(1, k), 1))
        a["t"] = V.arr("t", n, gen=lambda g, k: g.permutation(3 * k)[:k] * 10.0)
        a["dt"] = V.real("dt", gen=lambda g: float(g.integers(0, g.choice([30, 400]))) * 5)
        a["flag"] = V.choice("return_idx", [False, True])
        return a

    def run(self, a):
        t, dt = a["t"], a["dt"]
        if a["dates"]:
            t = np.datetime64("2020-01-01T00:00:00") + np.array(t).astype(int).astype("timedelta64[s]")
            dt = np.timedelta64(int(dt), "s")
        r = get(F)(a["y"], t, dt, a["flag"]) if a["flag"] else get(F)(a["y"], t, delta_t=dt)
        if a["dates"]:
            r = (r[0], (r[1] - np.datetime64("2020-01-01T00:00:00")) / np.timedelta64(1, "s")) + tuple(r[2:])
        return r

    def post(self, P, S, a, r):
        o = S.argsort(a["t"])
        y, t = S.select(a["y"], o), S.select(a["t"], o)
        n = S.len(y)
        q = S.where(n, lambda i: kept(S, y, t, a["dt"], i))
        P.check("parts", len(r) == (3 if a["flag"] else 2))
        P.eq("magnitudes kept, in time order", r[0], S.select(y, q))
        P.eq("their times", r[1], S.select(t, q))
        if a["flag"]:
            P.eq("which of the events in time order", r[2], S.seq(n, lambda i: kept(S, y, t, a["dt"], i), kind="b"))
