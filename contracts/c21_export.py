"""C21: catalogues exported to QuakeML and read back (bounded; template and XML reader are external)."""
import numpy as np

from .common import Unit, get, unit

FQ = "seismostats.catalogs.catalog:Catalog."
COUNTS = ["associatedphasecount", "usedphasecount", "associatedstationcount", "usedstationcount"]
SIZES = ["standarderror", "azimuthalgap", "secondaryazimuthalgap", "maximumdistance", "minimumdistance", "mediandistance"]
TYPES = ["ML", "MLc", "Mw", "M", "mb"]


def eq(u, v):
    import pandas as pd
    return u is v or u == v or bool(pd.isna(u)) and bool(pd.isna(v))


def val(df, c, k):
    return df[c].iloc[k] if c in df.columns else None


def num(v):
    return np.nan if v is None or v == "" else float(v)


@unit("quakeml_round_trip", ["C21"], [FQ + "to_quakeml", FQ + "_create_ids", FQ + "_secondary_magnitudekeys", FQ + "from_quakeml",
                                      FQ + "from_dict", "seismostats.utils:_render_template", "seismostats.io.parser:parse_quakeml"],
      symbolic=False, cases=200, why_bounded="jinja template, XML reader and pandas frames")
class RoundTrip(Unit):
    """to_quakeml and back"""

    def inputs(self, V):
        import pandas as pd
        g = V.rng
        n = V.int("n", 0, 6)
        miss = lambda v, p: [None if g.random() < p else x for x in v]
        d = {"time": list(pd.Timestamp("2021-03-04") + pd.to_timedelta(g.integers(-10**15, 10**14, n), unit="us")),
             "longitude": [float(v) for v in np.round(g.random(n) * 360 - 180, int(g.integers(0, 7)))],
             "latitude": [float(v) for v in np.round(g.random(n) * 180 - 90, int(g.integers(0, 7)))],
             "depth": [float(v) for v in np.round(g.random(n) * 100 - 3, 3)],
             "magnitude": [float(v) for v in np.round(g.random(n) * 6 - 1, 2)],
             "magnitude_type": [str(g.choice(TYPES)) for _ in range(n)]}
        if V.choice("missing depths", [False, True]):
            d["depth"] = [np.nan if g.random() < 0.4 else v for v in d["depth"]]
        if V.choice("missing positions", [False, False, True]):
            c = str(g.choice(["time", "longitude", "latitude"]))
            d[c] = [(pd.NaT if c == "time" else np.nan) if g.random() < 0.4 else v for v in d[c]]
        if V.choice("missing magnitudes", [False, False, True]):
            d["magnitude"] = [np.nan if g.random() < 0.4 else v for v in d["magnitude"]]
        if V.choice("missing types", [False, False, False, True]):
            d["magnitude_type"] = miss(d["magnitude_type"], 0.4)
        a = {"ids": V.choice("ids", ["all", "all", "none", "some missing"])}
        amp = V.choice("id text", ["smi:local/", "quakeml:x/query?format=quakeml&eventid="])
        if a["ids"] != "none":
            for c in ("eventID", "originID", "magnitudeID"):
                d[c] = [f"{amp}{c}/{j}" for j in range(n)]
                if a["ids"] == "some missing":
                    d[c] = miss(d[c], 0.3)
        second = [t for t in TYPES if g.random() < 0.5]
        for t in second:
            x = [np.nan if g.random() < 0.4 else float(v) for v in np.round(g.random(n) * 6 - 1, 2)]
            d[f"magnitude_{t}"] = [d["magnitude"][j] if d["magnitude_type"][j] == t else x[j] for j in range(n)]
            if a["ids"] == "all":
                d[f"magnitude_{t}_magnitudeID"] = [d["magnitudeID"][j] if d["magnitude_type"][j] == t else f"{amp}{t}/{j}" for j in range(n)]
        if V.choice("uncertainties", [False, True]):
            for c in ("longitude", "latitude", "depth", "magnitude"):
                d[c + "_uncertainty"] = [float(v) for v in np.round(g.random(n), 3)]
        if V.choice("event types", [False, True]):
            d["event_type"] = miss([str(g.choice(["earthquake", "quarry blast"])) for _ in range(n)], 0.3)
        if V.choice("evaluation modes", [False, True]):
            d["evaluationmode"] = miss([str(g.choice(["manual", "automatic"])) for _ in range(n)], 0.2)
        if V.choice("quality", [False, True]):
            for c in COUNTS:
                d[c] = [float(v) if g.random() < 0.7 else np.nan for v in g.integers(0, 50, n)]
            for c in SIZES:
                d[c] = [float(v) if g.random() < 0.7 else np.nan for v in np.round(g.random(n) * 180, 3)]
        cols = list(d)
        cols = [cols[k] for k in g.permutation(len(cols))]
        ix = [int(v) for v in g.permutation(n + 3)[:n]] if V.choice("index", [None, 1]) else None
        V.values["catalogue"] = {c: [str(v) for v in d[c]] for c in cols}
        a["second"], a["agency"] = second, V.choice("agency", ["SED", "A & B"])
        a["cat"] = get("catalogs.catalog:Catalog")({c: d[c] for c in cols}, index=ix, name="catalogue")
        return a

    def run(self, a):
        c = a["cat"]
        a["before"] = c.copy(deep=True)
        q = c.to_quakeml(agencyID=a["agency"], author="me")
        return get("catalogs.catalog:Catalog").from_quakeml(q, include_all_magnitudes=True, include_uncertainties=True, include_ids=True,
                                                          include_quality=True)

    def post(self, P, S, a, r):
        import pandas as pd
        c = a["before"]
        g = a["cat"]
        P.check("the catalogue is unchanged", list(g.columns) == list(c.columns) and list(g.index) == list(c.index) and
                all(eq(u, v) for k in g.columns for u, v in zip(g[k], c[k])))
        keep = [k for k in range(len(c)) if not any(pd.isna(c[x].iloc[k]) for x in ("time", "longitude", "latitude"))]
        P.check(f"every event with position and time: {len(r)} {len(keep)}", len(r) == len(keep))
        if len(r) != len(keep):
            return
        ids = []
        for j, k in enumerate(keep):
            P.check(f"event {j}: time", r["time"].iloc[j] == c["time"].iloc[k])
            for x in ("longitude", "latitude", "depth", "magnitude"):
                P.check(f"event {j}: {x}", eq(num(val(r, x, j)), num(val(c, x, k))))
                if x + "_uncertainty" in c.columns:
                    P.check(f"event {j}: {x}_uncertainty", eq(num(val(r, x + "_uncertainty", j)), num(val(c, x + "_uncertainty", k))))
            for x in COUNTS + SIZES:
                if x in c.columns:
                    P.check(f"event {j}: {x}", eq(num(val(r, x, j)), num(c[x].iloc[k])))
            own = c["magnitude_type"].iloc[k]
            P.check(f"event {j}: magnitude type", eq(val(r, "magnitude_type", j), own))
            for x in ("event_type", "evaluationmode"):
                if x in c.columns:
                    P.check(f"event {j}: {x}", eq(val(r, x, j), c[x].iloc[k]))
            for x in ("eventID", "originID", "magnitudeID"):
                v = val(r, x, j)
                if not pd.isna(val(c, x, k)):
                    P.check(f"event {j}: {x}", v == c[x].iloc[k])
                else:
                    P.check(f"event {j}: a new {x}", isinstance(v, str) and len(v) >= 32)
            ids.append(val(r, "eventID", j))
            for t in TYPES:
                x = f"magnitude_{t}"
                got = num(val(r, x, j))
                if eq(own, t):
                    P.check(f"event {j}: {x} is the magnitude", eq(got, num(val(c, "magnitude", k))))
                    continue
                P.check(f"event {j}: {x}", eq(got, num(val(c, x, k))))
                if not pd.isna(val(c, x, k)) and f"{x}_magnitudeID" in c.columns:
                    P.check(f"event {j}: {x}_magnitudeID", val(r, f"{x}_magnitudeID", j) == c[f"{x}_magnitudeID"].iloc[k])
        P.check("events have different ids", len(set(ids)) == len(ids))
