"""C26: conversion to openquake catalogues and back (bounded; openquake is not installed, its catalogue class is
assumed: a dictionary of columns, make_from_dict keeps the dictionary it is given, a new catalogue has empty columns)."""
import numpy as np

from .common import Unit, get, mod, unit

FQ = "seismostats.catalogs.catalog:Catalog."
UNITS = ["year", "month", "day", "hour", "minute"]


class OQCatalogue:
    FLOAT_ATTRIBUTE_LIST = ["second", "timeError", "longitude", "latitude", "SemiMajor90", "SemiMinor90", "ErrorStrike",
                            "depth", "depthError", "magnitude", "sigmaMagnitude"]
    INT_ATTRIBUTE_LIST = ["year", "month", "day", "hour", "minute", "flag"]
    STRING_ATTRIBUTE_LIST = ["eventID", "Agency", "magnitudeType", "comment"]
    TOTAL_ATTRIBUTE_LIST = FLOAT_ATTRIBUTE_LIST + INT_ATTRIBUTE_LIST + STRING_ATTRIBUTE_LIST

    def __init__(self):
        self.data = {c: np.array([], dtype=float) for c in self.FLOAT_ATTRIBUTE_LIST}
        self.data.update({c: np.array([], dtype=int) for c in self.INT_ATTRIBUTE_LIST})
        self.data.update({c: [] for c in self.STRING_ATTRIBUTE_LIST})

    @classmethod
    def make_from_dict(cls, data):
        c = cls()
        c.data = data
        return c

    def __getitem__(self, key):
        return self.data[key]

    def get_number_events(self):
        return len(self.data[list(self.data)[0]])


def same(u, v):
    import pandas as pd
    return u is v or u == v or bool(pd.isna(u)) and bool(pd.isna(v))


class Conversion(Unit):
    def catalogue(self):
        m = mod("catalogs.catalog")
        m._openquake_available, m.OQCatalogue = True, OQCatalogue
        return m.Catalog


@unit("openquake_round_trip", ["C26", "C14"], [FQ + "to_openquake", FQ + "from_openquake"], symbolic=False, cases=200,
      why_bounded="pandas frames; openquake is not installed, its catalogue is assumed to keep the columns it is given")
class There(Conversion):
    """catalogue to openquake and back"""

    def inputs(self, V):
        import pandas as pd
        g = V.rng
        n = V.int("n", 0, 7)
        old = V.choice("before 1678", [False, False, True])
        if old:
            t = [np.datetime64("1500-01-01T00:00:00", "s") + np.timedelta64(int(v), "s") for v in g.integers(-10**10, 10**10, n)]
            t = np.array(t, dtype="datetime64[s]")
        else:
            us = g.integers(-8 * 10**15, 6 * 10**15, n)
            if V.choice("whole seconds", [False, True]):
                us = us // 10**6 * 10**6
            elif g.random() < 0.3:
                us = us // 10**6 * 10**6 + g.choice([1, 999999, 500000, 999500], n)
            t = pd.Timestamp("1970-01-01") + pd.to_timedelta(us, unit="us")
        d = {"longitude": np.round(g.random(n) * 360 - 180, 4), "latitude": np.round(g.random(n) * 180 - 90, 4),
             "depth": np.where(g.random(n) < 0.2, np.nan, np.round(g.random(n) * 50, 2)), "time": t,
             "magnitude": np.round(g.random(n) * 6, 2)}
        if V.choice("eventID", [False, True]):
            d["eventID"] = [f"e{j}" for j in range(n)]
        if V.choice("magnitude types", [False, True]):
            d["magnitude_type"] = [["ML", None][int(g.integers(2))] for _ in range(n)]
        if V.choice("extra columns", [False, True]):
            d["extra1"], d["extra2"] = g.integers(0, 9, n), [str(v) for v in g.integers(0, 9, n)]
            d["flags"] = g.random(n) < 0.5
        cols = [list(d)[k] for k in g.permutation(len(d))]
        V.values["columns"] = {c: [str(v) for v in d[c]] for c in cols}
        ix = [int(v) for v in g.permutation(n + 3)[:n]] if V.choice("index", [None, 1]) else None
        C = self.catalogue()
        f = pd.DataFrame({c: np.asarray(d[c]) if c not in ("eventID", "magnitude_type", "extra2") else d[c] for c in cols}, index=ix)
        return {"cat": C(f), "keep": V.choice("keep_time_cols", [False, True]), "old": old}

    def run(self, a):
        C = self.catalogue()
        a["before"] = a["cat"].copy(deep=True)
        q = a["cat"].to_openquake()
        a["data"] = {c: list(v) for c, v in q.data.items()}
        r = C.from_openquake(q, keep_time_cols=True) if a["keep"] else C.from_openquake(q)
        a["after"] = {c: list(v) for c, v in q.data.items()}
        for v in q.data.values():
            if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                v[:] = 77.0
        return r

    def post(self, P, S, a, r):
        import pandas as pd
        c, g, n = a["before"], a["cat"], len(a["before"])
        P.check("the catalogue is unchanged, and does not share its values", list(g.columns) == list(c.columns) and
                list(g.index) == list(c.index) and all(same(u, v) for k in g.columns for u, v in zip(g[k], c[k])))
        P.check("the openquake catalogue is unchanged", list(a["after"]) == list(a["data"]) and
                all(same(u, v) for k in a["data"] for u, v in zip(a["data"][k], a["after"][k])))
        d = a["data"]
        P.check("every event", len(r) == n)
        if n == 0:
            P.check("no events", all(len(v) == 0 for v in d.values()))
            return
        for k in c.columns:
            P.check(f"{k} in openquake", k in d and len(d[k]) == n and all(same(u, v) for u, v in zip(d[k], c[k])))
        P.check("ids", len(set(d["eventID"])) == n and all(isinstance(v, str) and v for v in d["eventID"]))
        for u in UNITS:
            P.check(u, list(d[u]) == [getattr(t, u) for t in c["time"]])
        P.check("second", all(abs(s - (t.second + t.microsecond / 1e6)) < 1e-7 for s, t in zip(d["second"], c["time"])))
        for k in c.columns:
            P.check(f"{k} back", k in r.columns and all(same(u, v) for u, v in zip(r[k], c[k])))
        P.check("time type", r["time"].dtype.kind == "M")
        extra = {"eventID"} | (set(UNITS + ["second", "microsecond"]) if a["keep"] else set())
        P.check("no other columns", set(r.columns) - set(c.columns) <= extra)
        if a["keep"]:
            P.check("time columns kept", all(u in r.columns and list(r[u]) == [getattr(t, u) for t in c["time"]]
                                             for u in UNITS + ["second"]))


@unit("from_openquake", ["C26"], [FQ + "from_openquake"], symbolic=False, cases=150,
      why_bounded="pandas frames; openquake is not installed, its catalogue is assumed to keep the columns it is given")
class Back(Conversion):
    """openquake catalogues with any seconds, some columns empty"""

    def inputs(self, V):
        g = V.rng
        n = V.int("n", 0, 7)
        d = OQCatalogue().data if V.choice("empty columns", [True, False]) else {}
        old = V.choice("before 1678", [False, False, True])
        d["year"] = g.integers(900, 1600, n) if old else g.integers(1700, 2200, n)
        d["month"], d["day"] = g.integers(1, 13, n), g.integers(1, 29, n)
        d["hour"], d["minute"] = g.integers(0, 24, n), g.integers(0, 60, n)
        d["second"] = g.integers(0, 60, n) + np.where(g.random(n) < 0.5, np.round(g.random(n), 6), 0)
        if n and not old and g.random() < 0.3:
            d["second"][0] = g.choice([59.9999, 0.000001, 59.999999, 12.3456789])
        if old:
            d["second"] = np.floor(d["second"])
        for c in ("longitude", "latitude", "depth", "magnitude"):
            d[c] = np.round(g.random(n) * 80, 3)
        d["eventID"] = [f"e{j}" for j in range(n)]
        if V.choice("agency", [False, True]):
            d["Agency"] = [str(g.choice(["SED", "NA"])) for _ in range(n)]
        V.values["columns"] = {c: [str(v) for v in d[c]] for c in d}
        return {"oq": OQCatalogue.make_from_dict(d), "n": int(n)}

    def run(self, a):
        C = self.catalogue()
        a["data"] = {c: list(v) for c, v in a["oq"].data.items()}
        return C.from_openquake(a["oq"])

    def post(self, P, S, a, r):
        import datetime
        d, n = a["data"], a["n"]
        P.check("the openquake catalogue is unchanged", all(list(a["oq"].data[c]) == d[c] for c in d) and list(a["oq"].data) == list(d))
        P.check("every event", len(r) == n)
        if not n:
            return
        for c in d:
            if c in UNITS or c == "second":
                continue
            if d[c]:
                P.check(c, c in r.columns and list(r[c]) == d[c])
            else:
                P.check(f"no {c}", c not in r.columns)
        for j in range(n):
            t = datetime.datetime(*[int(d[u][j]) for u in UNITS]) + datetime.timedelta(microseconds=round(float(d["second"][j]) * 1e6))
            got = r["time"].iloc[j]
            got = got.to_pydatetime() if hasattr(got, "to_pydatetime") else got
            P.check(f"time of event {j}: {got} {t}", abs((got - t).total_seconds()) < 1.5e-6)
