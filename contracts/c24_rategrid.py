"""C24: rate grids (bounded; the behaviour is that of pandas operations)."""
import numpy as np

from .common import Unit, get, unit

RG = "catalogs.rategrid"
FQ = "seismostats.catalogs.rategrid:"
BOUNDS = ["longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max"]
VALUES = ["a", "b", "mc"]


def eq(u, v):
    import pandas as pd
    return u is v or u == v or bool(pd.isna(u)) and bool(pd.isna(v))


def key(row):
    return tuple("nan" if v != v else float(v) for v in row)


def gen_grid(V, tag, nd, forecast, depth, number, start=None):
    """a grid whose rows are drawn from a small set of cells"""
    import pandas as pd
    g = V.rng
    n = V.int(f"n {tag}", 1, 8)
    cells = []
    for k in range(nd):
        lo, la, de = (k % 3) * 1.0, (k // 3) * 0.5, (k % 2) * 10.0
        cells.append([lo, lo + 1, la, la + 0.5] + ([de, de + 10] if depth == "depths" or depth == "some" and k % 2
                                                   else [np.nan, np.nan]))
    pick = g.integers(0, nd, n) if forecast else g.permutation(max(n, nd))[:n] % nd
    V.values[f"cells {tag}"] = [int(k) for k in pick]
    d = {c: [cells[k][j] for k in pick] for j, c in enumerate(BOUNDS)}
    for c in VALUES:
        d[c] = [float(v) for v in np.round(g.random(n) * 3, 2)]
        V.values[f"{c} {tag}"] = d[c]
    if number:
        d["number_events"] = [int(v) for v in g.integers(0, 20, n)]
    if forecast:
        d["grid_id"] = [int(v) for v in g.integers(0, 4, n)]
        V.values[f"grid_id {tag}"] = d["grid_id"]
    cols = list(d)
    if V.choice(f"columns shuffled {tag}", [False, False, True]):
        cols = [cols[k] for k in g.permutation(len(cols))]
    cls = get(RG + (":ForecastGRRateGrid" if forecast else ":GRRateGrid"))
    start = V.int(f"start {tag}", 0, 9) if start is None else start
    has_end = V.choice(f"end {tag}", [True, True, True, False])
    t0 = pd.Timestamp("2023-01-01") + pd.Timedelta(days=start)
    ix = V.choice(f"index {tag}", [None, "other"])
    r = cls({c: d[c] for c in cols}, starttime=t0, endtime=t0 + pd.Timedelta(days=2) if has_end else None, name="grid " + tag,
            **({"index": [int(v) for v in g.permutation(n + 3)[:n]]} if ix else {}))
    return r


def rows(df, cols):
    return [[df[c].iloc[k] for c in cols] for k in range(len(df))]


@unit("rategrid_concat", ["C24"], [FQ + "GRRateGrid.concat", FQ + "GRRateGrid.add_time_index", FQ + "GRRateGrid._reindex_cell_id",
                                   FQ + "GRRateGrid.__finalize__"], symbolic=False, cases=150,
      why_bounded="pandas concat and MultiIndex operations")
class Concat(Unit):
    """up to three grids, with and without end times, also concatenated in two steps"""

    def inputs(self, V):
        forecast = V.choice("forecast", [False, True])
        depth = V.choice("depths", ["depths", "depths", "some", "none"])
        nd, number = V.int("different cells", 1, 5), V.choice("number_events", [False, True])
        k = V.int("grids", 1, 3)
        same = V.choice("same start", [None, None, 1])
        return {"grids": [gen_grid(V, str(j), nd, forecast, depth, number, same) for j in range(k)],
                "steps": V.choice("two steps", [False, True]), "forecast": forecast}

    def run(self, a):
        gs = a["grids"]
        cls = type(gs[0])
        a["before"] = [g.copy(deep=True) for g in gs]
        a["ends"] = all(g.endtime == g.endtime and g.endtime is not None for g in gs)
        if a["steps"] and len(gs) > 1 and (a["ends"] or all(not (g.endtime == g.endtime) for g in gs)):
            return cls.concat([cls.concat(gs[:1]), cls.concat(gs[1:])])
        return cls.concat(gs)

    def post(self, P, S, a, r):
        import pandas as pd
        gs = a["before"]
        ends = a["ends"]
        P.check("index levels", list(r.index.names) == ["starttime"] + (["endtime"] if ends else []) + ["cell_id"])
        P.check("the columns are kept", sorted(r.columns) == sorted(gs[0].columns))
        P.check("the kind of grid is kept", isinstance(r, get(RG + (":ForecastGRRateGrid" if a["forecast"] else ":GRRateGrid"))))
        want = [(g, k) for g in gs for k in range(len(g))]
        P.check("every row once", len(r) == len(want))
        if len(r) != len(want):
            return
        cols = list(gs[0].columns)
        for j, (g, k) in enumerate(want):
            P.check(f"row {j} keeps its values", all(eq(r[c].iloc[j], g[c].iloc[k]) for c in cols))
            ix = r.index[j]
            P.check(f"row {j} has the start time of its grid", ix[0] == g.starttime)
            P.check(f"row {j} has the end time of its grid", not ends or ix[1] == g.endtime)
        ids = [i[-1] for i in r.index]
        cells = [key(v) for v in rows(r, BOUNDS)]
        for i in range(len(ids)):
            for j in range(i):
                P.check(f"rows {j} and {i}: equal cells and only they have equal ids", (ids[i] == ids[j]) == (cells[i] == cells[j]))
        P.check("start time", r.starttime == min(g.starttime for g in gs))
        P.check("end time", r.endtime == (max(g.endtime for g in gs) if ends else max(g.starttime for g in gs)))
        for j, (g, h) in enumerate(zip(a["grids"], gs)):
            P.check(f"grid {j} is unchanged", list(g.columns) == list(h.columns) and list(g.index) == list(h.index) and
                    g.starttime == h.starttime and eq(g.endtime, h.endtime) and
                    all(eq(u, v) for c in g.columns for u, v in zip(g[c], h[c])))


@unit("rategrid_statistics", ["C24"], [FQ + "ForecastGRRateGrid.calculate_statistics"], symbolic=False, cases=150,
      why_bounded="pandas groupby and agg")
class Statistics(Unit):
    def inputs(self, V):
        depth = V.choice("depths", ["depths", "depths", "some", "none"])
        nd, number = V.int("different cells", 1, 5), V.choice("number_events", [False, True])
        k = V.choice("time steps", [0, 0, 1, 2, 3])
        grids = [gen_grid(V, str(j), nd, True, depth, number, j * 2) for j in range(max(k, 1))]
        for g in grids:
            g["name_of_cell"] = ["x"] * len(g)
        if V.choice("missing values", [False, False, True]):
            for g in grids:
                g["b"] = [np.nan if V.rng.random() < 0.4 else v for v in g["b"]]
        return {"grids": grids, "indexed": k > 0, "how": V.choice("agg_func", ["mean", "max", "sum", "median", "function"]),
                "extra": V.choice("extra", [{}, {"lowest": "min"}, {"std": "std", "largest": "max"}])}

    def run(self, a):
        gs = a["grids"]
        g = get(RG + ":ForecastGRRateGrid").concat(gs) if a["indexed"] else gs[0]
        a["grid"] = g
        a["before"] = g.copy(deep=True)
        how = (lambda x: x.max() - x.min()) if a["how"] == "function" else a["how"]
        return g.calculate_statistics(how, a["extra"]) if a["extra"] else g.calculate_statistics(how)

    def agg(self, how, v):
        v = [float(x) for x in v if x == x]
        if how == "sum":
            return float(np.sum(v)) if v else 0.0
        if not v or how == "std" and len(v) < 2:
            return np.nan
        return {"mean": np.mean, "max": np.max, "min": np.min, "median": np.median, "std": lambda x: np.std(x, ddof=1),
                "function": lambda x: np.max(x) - np.min(x)}[how](v)

    def post(self, P, S, a, r):
        import pandas as pd
        c = a["before"]
        if a["indexed"]:
            keys = [tuple(str(x) for x in i) for i in c.index]
            got = [tuple(str(x) for x in i) for i in r.index]
        else:
            keys = [key(v) for v in rows(c, BOUNDS)]
            got = None
        groups = {}
        for j, k in enumerate(keys):
            groups.setdefault(k, []).append(j)
        P.check("one row per cell and time", len(r) == len(groups))
        if len(r) != len(groups):
            return
        P.check("grid_id is gone", "grid_id" not in r.columns)
        cols = VALUES + (["number_events"] if "number_events" in c.columns else [])
        want_extra = {f"{k}_{s}": (k, f) for s, f in a["extra"].items() for k in cols}
        empty = [k for k in cols if all(v != v for v in c[k])]
        for k in cols:
            P.check(f"{k} is there", k in empty or k in r.columns)
        if got is None and a["how"] in ("mean", "max", "median"):
            got = [key(r[BOUNDS].iloc[j]) for j in range(len(r))]
        if got is None:                                                  # rows identified by their order: the cells in ascending order
            big = lambda k: tuple(float("inf") if v == "nan" else v for v in k)
            got = sorted(groups, key=big)
        P.check("every cell and time", sorted(got) == sorted(groups))
        if sorted(got) != sorted(groups):
            return
        for j, k in enumerate(got):
            sel = groups[k]
            for col in cols:
                if col in r.columns:
                    w = self.agg(a["how"], [c[col].iloc[i] for i in sel])
                    v = float(r[col].iloc[j])
                    P.check(f"row {j}: {col} {v} {w}", abs(v - w) < 1e-9 or v != v and w != w)
            for col, (src, f) in want_extra.items():
                if src in empty:
                    continue
                P.check(f"{col} is there", col in r.columns)
                if col in r.columns:
                    w = self.agg(f, [c[src].iloc[i] for i in sel])
                    v = float(r[col].iloc[j])
                    P.check(f"row {j}: {col} {v} {w}", abs(v - w) < 1e-9 or v != v and w != w)
        g = a["grid"]
        P.check("the grid is unchanged", list(g.columns) == list(c.columns) and list(g.index) == list(c.index) and
                all(eq(u, v) for k in g.columns for u, v in zip(g[k], c[k])))
