"""C29: catalogues and rate grids are tables: what pandas does with a table, it does with them (bounded)."""
import copy
import io
import pickle

import numpy as np

from .common import Unit, get, unit
from .c23_transformations import CAT, META, gen_catalog
from .c24_rategrid import RG, gen_grid

CQ = "seismostats.catalogs.catalog:"
RQ = "seismostats.catalogs.rategrid:"
WHY = "pandas data frames"


def outcome(f, x):
    try:
        return None, f(x)
    except Exception as e:  # noqa: BLE001 - the exception is what is compared
        return type(e).__name__, None


def gone(v):
    import pandas as pd
    try:
        return bool(pd.isna(v))
    except (TypeError, ValueError):
        return False


def value_eq(u, v):
    import pandas as pd
    if isinstance(v, (pd.DataFrame, pd.Series)) or isinstance(u, (pd.DataFrame, pd.Series)):
        return not content(u, v)
    if gone(u) or gone(v):
        return gone(u) and gone(v)
    if type(u) in (list, tuple) and type(v) in (list, tuple):
        return len(u) == len(v) and all(map(value_eq, u, v))
    try:
        if u == v:
            return True
        return abs(float(u) - float(v)) <= 1e-9 * max(1, abs(float(v)))
    except (TypeError, ValueError):
        return False


def content(r, want):
    """'' if r holds what want holds"""
    import pandas as pd
    if isinstance(want, pd.DataFrame):
        if not isinstance(r, pd.DataFrame):
            return f"a {type(r).__name__} instead of a table"
        if r.shape != want.shape:
            return f"shape {r.shape} instead of {want.shape}"
        if not all(map(value_eq, r.columns, want.columns)):
            return f"columns {list(r.columns)} instead of {list(want.columns)}"
        if not all(map(value_eq, r.index, want.index)):
            return f"rows {list(r.index)} instead of {list(want.index)}"
        for i, c in enumerate(want.columns):
            for u, v in zip(r.iloc[:, i].tolist(), want.iloc[:, i].tolist()):
                if not value_eq(u, v):
                    return f"column {c}: {u!r} instead of {v!r}"
        return ""
    if isinstance(want, pd.Series):
        if not isinstance(r, pd.Series) or len(r) != len(want):
            return "not the same series"
        if not all(map(value_eq, r.index, want.index)):
            return "other rows"
        return "" if all(map(value_eq, r.tolist(), want.tolist())) else "other values"
    return "" if value_eq(r, want) else f"{r!r} instead of {want!r}"


def keep(f):
    """an operation that selects, orders or extends: class by columns, attributes kept"""
    f.keeps = True
    return f


def ops(rng, num, n):
    """operations on a table with the number column num and n rows"""
    import pandas as pd
    k = int(rng.integers(0, n + 1))
    t = float(np.round(rng.random() * 5, 1))
    mask = rng.random(n) < 0.6
    perm = rng.permutation(n)
    few = sorted(set(map(int, rng.integers(0, 6, 3))))
    other = pd.DataFrame({"aa_new": np.arange(n)})
    K = {
        "mask": lambda c: c[c[num] > t], "array mask": lambda c: c[mask], "iloc": lambda c: c.iloc[perm], "slice": lambda c: c.iloc[k:],
        "empty": lambda c: c.iloc[:0], "loc": lambda c: c.loc[c[num] > t], "sort": lambda c: c.sort_values(num, kind="stable"),
        "sort index": lambda c: c.sort_index(kind="stable"), "copy": lambda c: c.copy(), "head": lambda c: c.head(k),
        "tail": lambda c: c.tail(k), "reset": lambda c: c.reset_index(drop=True), "reset keep": lambda c: c.reset_index(names="old"),
        "assign": lambda c: c.assign(aa_new=1.5), "duplicates": lambda c: c.drop_duplicates(num),
        "query": lambda c: c.query(f"{num} > {t}"), "deepcopy": copy.deepcopy, "pickle": lambda c: pickle.loads(pickle.dumps(c)),
        "sample": lambda c: c.sample(min(k, n), random_state=3), "largest": lambda c: c.nlargest(k, num),
        "where": lambda c: c.where(c[num] > t), "dropna": lambda c: c.dropna(), "dropna some": lambda c: c.dropna(subset=[num]),
        "fillna": lambda c: c.fillna({num: 0.0}), "shift": lambda c: c.shift(1),
        "concat": lambda c: pd.concat([c, c.iloc[k:]]), "concat empty": lambda c: pd.concat([c, c.iloc[:0]]),
        "concat new rows": lambda c: pd.concat([c, c], ignore_index=True),
        "filter": lambda c: c.filter(items=list(c.columns)[::-1]), "join": lambda c: c.reset_index(drop=True).join(other),
        "cut": lambda c: c[[x for j, x in enumerate(c.columns) if j not in few]],
        "drop": lambda c: c.drop(columns=[x for j, x in enumerate(c.columns) if j in few]),
        "rename": lambda c: c.assign(aa_new=2).rename(columns={"aa_new": "bb_new"}),
        "astype": lambda c: c.astype({num: "float32"}).astype({num: "float64"}).round({num: 2}),
    }
    D = {
        "isna": lambda c: c.isna(), "notna": lambda c: c.notna(), "T": lambda c: c.T, "map": lambda c: c.map(str).shape,
        "count": lambda c: c.count(), "info": lambda c: c.info(buf=io.StringIO()), "corr": lambda c: c.corr(numeric_only=True),
        "equal": lambda c: c == c, "isin": lambda c: c.isin([1, "ML"]), "as text": lambda c: c.astype(str).shape,
        "describe": lambda c: c.describe(), "missing": lambda c: c.isna().sum(), "any": lambda c: c.isna().any(axis=1),
        "melt": lambda c: c.melt(), "group first": lambda c: c.groupby(num).first(), "group size": lambda c: c.groupby(num).size(),
        "group count": lambda c: c.groupby(num).count(), "rows": lambda c: [list(r) for _, r in c.iterrows()],
        "unique": lambda c: c[num].nunique(), "duplicated": lambda c: c.duplicated(), "text": lambda c: len(c.to_csv()) > 0,
        "records": lambda c: [list(r.values()) for r in c.to_dict("records")], "max": lambda c: c[num].max(),
        "cumsum": lambda c: c[[num]].cumsum(), "rank": lambda c: c.rank(numeric_only=True), "diff": lambda c: c[[num]].diff(),
        "nothing": lambda c: c.replace({num: {t: t}}), "values": lambda c: [list(r) for r in c.values],
        "shown": lambda c: len(repr(c)) > 0 and len(c._repr_html_()) > 0, "apply": lambda c: c.apply(lambda r: r[num], axis=1),
        "eval": lambda c: c.eval(f"{num} + 1"), "nth": lambda c: c[num].iloc[0] if len(c) else None,
    }
    for d in (K,):
        for name in d:
            d[name] = keep(d[name])
    K.update(D)
    return K


def same_attribute(u, v):
    return u is v or gone(u) and gone(v) or bool(u == v)


def attributes(t, names):
    return {k: getattr(t, k, None) for k in names}


def lost(r, before, kinds):
    return [k for k, v in before.items() if k in kinds and not same_attribute(getattr(r, k, None), v)]


class Operation(Unit):
    """a random chain of one or two pandas operations, on the table and on a plain data frame of the same content"""

    def inputs(self, V):
        t, num, names = self.table(V)
        names_of_ops = list(ops(np.random.default_rng(0), num, 3))
        a = {"t": t, "num": num, "names": names, "rng": int(V.int("draw", 0, 10 ** 6)),
             "ops": [V.choice(f"operation {k}", names_of_ops) for k in range(V.int("operations", 1, 2))]}
        return a

    def run(self, a):
        import pandas as pd
        t = a["t"]
        plain = pd.DataFrame(t).copy(deep=True)
        plain = pd.DataFrame({i: plain.iloc[:, i] for i in range(plain.shape[1])}).set_axis(plain.columns, axis=1) \
            if plain.shape[1] else plain
        a["before"], a["attributes"], a["class"] = plain.copy(deep=True), attributes(t, a["names"]), type(t).__name__
        steps = []
        for k, name in enumerate(a["ops"]):
            if not isinstance(plain, pd.DataFrame) or a["num"] not in plain.columns or not type(t).__module__.startswith("seismostats"):
                break
            op = ops(np.random.default_rng(a["rng"] + k), a["num"], len(plain))[name]
            e1, want = outcome(op, plain)
            e2, r = outcome(op, t)
            steps.append((name, getattr(op, "keeps", False), e1, want, e2, r))
            if e1 is not None or not getattr(op, "keeps", False):
                break
            plain, t = want, r
        return steps

    def post(self, P, S, a, r):
        import pandas as pd
        for name, keeps, e1, want, e2, got in r:
            # what pandas refuses on a plain table may be refused in another way
            P.check(f"{name}: done whenever pandas does it ({e2})", e1 is not None or e2 is None)
            if e1 is not None or e2 is not None:
                return
            d = content(got, want)
            P.check(f"{name}: the content pandas gives ({d})", d == "")
            if keeps:
                kind = self.kind(list(want.columns))
                P.check(f"{name}: {type(got).__name__}, by its columns a {kind}", type(got).__name__ == kind)
                x = lost(got, a["attributes"], self.of_kind(kind))
                P.check(f"{name}: attributes kept ({x})", not x)
        P.check("the table passed in keeps its content", content(a["t"], a["before"]) == "")
        P.check("and its attributes", not lost(a["t"], a["attributes"], a["names"]))


@unit("catalog_as_table", ["C29"], [CQ + "Catalog.__init__", CQ + "_catalog_constructor_with_fallback", CQ + "Catalog._constructor",
                                    CQ + "ForecastCatalog.__init__"], symbolic=False, cases=260, why_bounded=WHY)
class CatalogTable(Operation):
    def table(self, V):
        c = gen_catalog(V, V.int("n", 0, 7), must=["magnitude"])
        return c, "magnitude", META + (["n_catalogs"] if type(c).__name__ == "ForecastCatalog" else [])

    def kind(self, cols):
        return "DataFrame" if "magnitude" not in cols else "ForecastCatalog" if "catalog_id" in cols else "Catalog"

    def of_kind(self, kind):
        return {"DataFrame": [], "Catalog": META}.get(kind, META + ["n_catalogs"])


RATEGRID = ["longitude_min", "longitude_max", "latitude_min", "latitude_max", "depth_min", "depth_max", "a", "b", "mc"]


@unit("rategrid_as_table", ["C29", "C24"], [RQ + "GRRateGrid.__init__", RQ + "_rategrid_constructor_with_fallback",
                                            RQ + "GRRateGrid._constructor", RQ + "ForecastGRRateGrid.__init__"],
      symbolic=False, cases=200, why_bounded=WHY)
class GridTable(Operation):
    def table(self, V):
        forecast = V.choice("forecast", [False, True])
        g = gen_grid(V, "0", V.int("different cells", 1, 5), forecast, "depths", V.choice("number_events", [False, True]))
        if forecast:
            g.n_grids = 9
        return g, V.choice("column", ["a", "b", "mc"]), ["name", "starttime", "endtime"] + (["n_grids"] if forecast else [])

    def kind(self, cols):
        return "DataFrame" if not set(RATEGRID) <= set(cols) else "ForecastGRRateGrid" if "grid_id" in cols else "GRRateGrid"

    def of_kind(self, kind):
        base = ["name", "starttime", "endtime"]
        return {"DataFrame": [], "GRRateGrid": base}.get(kind, base + ["n_grids"])


# ---- construction -----------------------------------------------------------------

NUMERIC = ["magnitude", "latitude", "longitude", "depth", "associatedphasecount", "usedphasecount", "usedstationcount",
           "standarderror", "azimuthalgap", "minimumdistance"]
TEXT = ["magnitude_type", "event_type"]
EMPTY = ["", "nan", "NaN", "none", "None", "NA", "null", "NULL"]


@unit("catalog_construction", ["C29"], [CQ + "Catalog.__init__", CQ + "ForecastCatalog.__init__",
                                        "seismostats.utils:_robust_parse_datetime"],
      symbolic=False, cases=250, why_bounded=WHY)
class Construction(Unit):
    """columns given as numbers or texts, with undefined entries, in every kind of container"""

    def inputs(self, V):
        import pandas as pd
        g = V.rng
        n = V.int("n", 1, 6)
        cols = ["magnitude"] + [c for c in NUMERIC[1:] + TEXT + ["time", "extra", "region"] if g.random() < 0.5]
        cols = [cols[i] for i in g.permutation(len(cols))]
        data, want = {}, {}
        for c in cols:
            given, wanted = [], []
            zone = V.choice("zone", ["", "Z"]) if c == "time" else ""
            style = V.choice("style " + c, ["plain", "text", "gaps"])
            # an old event makes the whole column one of python times, which has whole seconds
            old = c == "time" and V.choice("old", [False, False, True])
            for k in range(n):
                x = float(np.round(g.random() * 9 - 2, 2))
                if c in NUMERIC:
                    u = {"plain": x, "text": str(x), "gaps": [x, str(x), None, "abc", ""][int(g.integers(0, 5))]}[style]
                    v = float("nan") if u in (None, "abc", "") else x
                elif c in TEXT:
                    u = ["ML", "Mw", "b"][int(g.integers(0, 3))]
                    if style == "gaps" and g.random() < 0.5:
                        u = EMPTY[int(g.integers(0, len(EMPTY)))]
                    v = None if u in EMPTY else u
                elif c == "time":
                    t = pd.Timestamp("2001-02-03") + pd.Timedelta(seconds=int(g.integers(0, 10 ** 9)))
                    if not old:
                        t = t + pd.Timedelta(milliseconds=int(g.integers(0, 1000)))
                    text = t.isoformat(timespec="milliseconds" if t.microsecond else "seconds")
                    u, v = {"plain": t, "text": text + zone, "gaps": text}[style], t
                    if old and k == 0:
                        u = v = "1512-03-04T05:06:07"
                    elif old:
                        u, v = text, t
                    elif style == "gaps" and g.random() < 0.4:
                        u = v = None
                else:
                    u = v = f"{c}{k}" if c == "region" else x
                given.append(u)
                wanted.append(v)
            data[c], want[c] = given, wanted
        V.values["data"] = {k: list(map(str, v)) for k, v in data.items()}
        form = V.choice("form", ["dict", "frame", "records"])
        index = [f"e{k}" for k in range(n)] if V.choice("index", [0, 1]) and form != "records" else None
        src = data if form == "dict" else pd.DataFrame(data, index=index) if form == "frame" else \
            [{c: data[c][k] for c in cols} for k in range(n)]
        times = {k: V.choice(k, [None, "2001-02-03", "2001-02-03T04:05:06", pd.Timestamp("2010-01-01 12:00")])
                 for k in ("starttime", "endtime")}
        meta = {k: V.choice(k, [None, v]) for k, v in (("name", "here"), ("mc", 1.5), ("b_value", 0.9), ("a_value", 3.0),
                                                       ("delta_m", 0.1), ("depth_min", 0.0), ("depth_max", 30.0),
                                                       ("bounding_polygon", "POLYGON((0 0, 1 0, 1 1, 0 0))"))}
        return {"src": src, "want": want, "cols": cols, "index": index, "form": form, "n": n, "times": times, "meta": meta,
                "data": data, "how": V.choice("how", ["constructor", "constructor", "from_dict"])}

    def run(self, a):
        import pandas as pd
        cls = get(CAT + ":Catalog")
        a["copy"] = copy.deepcopy(a["src"])
        if a["how"] == "from_dict" and a["form"] != "frame":
            a["index"] = None
            return cls.from_dict(a["src"], True, True)
        kw = {} if a["index"] is None or a["form"] == "frame" else {"index": a["index"]}
        a["how"] = "constructor"
        return cls(a["src"], **kw, **a["times"], **a["meta"])

    def post(self, P, S, a, r):
        import pandas as pd
        P.check("a Catalog", type(r).__name__ == "Catalog")
        P.check("the columns in their order", list(r.columns) == a["cols"])
        P.check("the rows in their order", list(r.index) == (a["index"] or list(range(a["n"]))))
        for c in a["cols"]:
            got, want = r[c].tolist(), a["want"][c]
            for u, v in zip(got, want):
                if c == "time" and v is not None:
                    ok = not gone(u) and str(u).replace("T", " ")[:19] == str(v).replace("T", " ")[:19] and \
                        (not hasattr(v, "microsecond") or u.microsecond == v.microsecond) and getattr(u, "tzinfo", None) is None
                else:
                    ok = value_eq(u, v)
                P.check(f"column {c}: {u!r} for {v!r}", ok)
            if c in NUMERIC:
                P.check(f"column {c} is numeric", r[c].dtype.kind in "if")
            if c == "time" and not any(isinstance(v, str) for v in want) and not all(v is None for v in want):
                P.check("times are times", r[c].dtype.kind == "M")
        if a["how"] == "constructor":
            for k, v in a["times"].items():
                P.check(f"{k} is a time", gone(getattr(r, k)) if v is None else
                        isinstance(getattr(r, k), pd.Timestamp) and getattr(r, k) == pd.Timestamp(v))
            for k, v in a["meta"].items():
                P.check(f"attribute {k}", getattr(r, k) == v)
        if a["form"] == "frame":
            P.check("the data passed in is unchanged", content(a["src"], a["copy"]) == "" and
                    list(map(str, a["src"].dtypes)) == list(map(str, a["copy"].dtypes)))
        else:
            P.check("the data passed in is unchanged", repr(a["src"]) == repr(a["copy"]))


@unit("empty_catalogues", ["C29"], [CQ + "Catalog.__init__"], symbolic=False, cases=30, why_bounded=WHY)
class EmptyCatalogue(Unit):
    def inputs(self, V):
        return {"how": V.choice("how", ["nothing", "frame", "dict", "columns"]), "forecast": V.choice("forecast", [False, True]),
                "name": V.choice("name", [None, "here"])}

    def run(self, a):
        import pandas as pd
        cls = get(CAT + (":ForecastCatalog" if a["forecast"] else ":Catalog"))
        kw = {"name": a["name"]}
        return {"nothing": lambda: cls(**kw), "frame": lambda: cls(pd.DataFrame(), **kw), "dict": lambda: cls({}, **kw),
                "columns": lambda: cls(columns=["time", "magnitude"], **kw)}[a["how"]]()

    def post(self, P, S, a, r):
        cols = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
        if a["how"] == "columns":
            cols = ["time", "magnitude"]
        P.check("no event", len(r) == 0)
        P.check("the columns of a catalogue", [c for c in r.columns if c != "catalog_id"] == cols)
        P.check("the name", r.name == a["name"])


# ---- columns a method needs --------------------------------------------------------

CORE = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
NEEDS = {
    "strip": (CORE, lambda c: c.strip()), "strip in place": (CORE, lambda c: c.strip(inplace=True)),
    "to_quakeml": (CORE, lambda c: c.to_quakeml()),
    "bin_magnitudes": (["magnitude"], lambda c: c.bin_magnitudes(0.1)),
    "bin_magnitudes in place": (["magnitude"], lambda c: c.bin_magnitudes(0.1, inplace=True)),
    "estimate_mc_maxc": (["magnitude"], lambda c: c.estimate_mc_maxc(0.5)),
    "estimate_b": (["magnitude"], lambda c: c.estimate_b(mc=0.0, delta_m=0.5)),
    "estimate_a": (["magnitude"], lambda c: c.estimate_a(mc=0.0, delta_m=0.5)),
    "estimate_mc_ks": (["magnitude"], lambda c: c.estimate_mc_ks(delta_m=0.5, mcs_test=[0.5], n=5)),
    "estimate_mc_b_stability": (["magnitude"], lambda c: c.estimate_mc_b_stability(delta_m=0.5, mcs_test=[0.5])),
    "plot_cum_count": (["time", "magnitude"], lambda c: c.plot_cum_count(mcs=[0.5], delta_m=0.5)),
    "plot_mags_in_time": (["time", "magnitude"], lambda c: c.plot_mags_in_time()),
    "plot_fmd": (["magnitude"], lambda c: c.plot_fmd(fmd_bin=0.5)),
    "plot_cum_fmd": (["magnitude"], lambda c: c.plot_cum_fmd(fmd_bin=0.5)),
    "plot_mc_vs_b": (["magnitude"], lambda c: c.plot_mc_vs_b(mcs=np.array([0.0, 0.5]), delta_m=0.5)),
}


@unit("needed_columns", ["C29"], ["seismostats.utils:require_cols", "seismostats.utils:_check_required_cols"] +
      [CQ + "Catalog." + k for k in NEEDS if " " not in k], symbolic=False, cases=120, why_bounded=WHY)
class NeededColumns(Unit):
    """tables with some of the columns, made into catalogues of which a column has been taken away"""
    frame = False  # some methods work in place

    def inputs(self, V):
        import pandas as pd
        g = V.rng
        n = 12
        full = {"longitude": g.random(n) * 5, "latitude": g.random(n) * 5, "depth": g.random(n) * 9,
                "time": pd.Timestamp("2020-01-01") + pd.to_timedelta(np.arange(n), unit="h"),
                "magnitude": np.round(g.random(n) * 4) / 2, "magnitude_type": ["ML"] * n}
        gone_ = V.choice("without", [[], [], ["magnitude"], ["time"], ["depth"], ["longitude"], ["latitude"], ["magnitude_type"],
                                     ["time", "magnitude"], ["depth", "magnitude_type"]])
        return {"data": {k: v for k, v in full.items() if k not in gone_}, "without": gone_,
                "extra": V.choice("extra", [False, True]), "method": V.choice("method", list(NEEDS))}

    def run(self, a):
        import pandas as pd
        import matplotlib.pyplot as plt
        if a["extra"]:
            a["data"]["extra"] = 1.0
        c = get(CAT + ":Catalog")(a["data"])
        a["c"], a["before"] = c, pd.DataFrame(c).copy(deep=True)
        try:
            NEEDS[a["method"]][1](c)
            return None
        except AttributeError as e:
            return e
        finally:
            plt.close("all")

    def post(self, P, S, a, r):
        miss = [k for k in NEEDS[a["method"]][0] if k in a["without"]]
        if not miss:
            P.check(f"no complaint about columns ({r})", r is None)
            return
        P.check("a missing column is an AttributeError", r is not None)
        P.check("which names the columns", all(repr(k) in str(r) for k in miss))
        P.check("the catalogue is unchanged", content(a["c"], a["before"]) == "")


# ---- rate grids: stripping and time index --------------------------------------------

@unit("rategrid_methods", ["C24", "C29"], [RQ + "GRRateGrid.strip", RQ + "GRRateGrid.add_time_index", RQ + "GRRateGrid.__init__",
                                           RQ + "ForecastGRRateGrid.__init__", RQ + "GRRateGrid._reindex_cell_id",
                                           "seismostats.utils:require_cols"], symbolic=False, cases=200, why_bounded=WHY)
class GridMethods(Unit):
    frame = False  # strip can work in place; the postconditions say when the grid is unchanged

    def inputs(self, V):
        import pandas as pd
        forecast = V.choice("forecast", [False, True])
        g = gen_grid(V, "0", V.int("different cells", 1, 5), forecast, V.choice("depths", ["depths", "some", "none"]),
                     V.choice("number_events", [False, True]), V.int("start", 0, 9))
        start = V.choice("start given", ["text", "time", "time", None])
        end = V.choice("end given", ["text", "time", "time", None])
        give = lambda t, how: None if how is None else t if how == "time" else str(t)
        t0, t1 = pd.Timestamp("2023-01-01 06:00"), pd.Timestamp("2023-01-03")
        cls = type(g)
        df = pd.DataFrame(g).assign(extra=1.0)
        drop = V.choice("without", [None, None, None, "a", "b", "mc", "depth_max", "longitude_min"])
        if drop:
            df = df.drop(columns=drop)
        kw = {"n_grids": V.choice("n_grids", [None, 7])} if forecast else {}
        r = cls(df, name="g", starttime=give(t0, start), endtime=give(t1, end), **kw)
        return {"g": r, "drop": drop, "start": start and t0, "end": end and t1, "kw": kw,
                "method": V.choice("method", ["strip", "strip in place", "index", "index", "index start", "index default"])}

    def run(self, a):
        import pandas as pd
        g = a["g"]
        a["before"] = pd.DataFrame(g).copy(deep=True)
        a["attrs"] = attributes(g, ["name", "starttime", "endtime"] + list(a["kw"]))
        f = {"strip": lambda: g.strip(), "strip in place": lambda: g.strip(inplace=True), "index": lambda: g.add_time_index(True),
             "index start": lambda: g.add_time_index(False), "index default": lambda: g.add_time_index()}
        try:
            return "done", f[a["method"]]()
        except AttributeError as e:
            return "AttributeError", e

    def post(self, P, S, a, r):
        import pandas as pd
        how, r = r
        g, m, b = a["g"], a["method"], a["before"]
        P.check("times are kept as times", all(gone(getattr(g, k)) if v is None else getattr(g, k) == v and
                                               isinstance(getattr(g, k), pd.Timestamp)
                                               for k, v in (("starttime", a["start"]), ("endtime", a["end"]))))
        P.check("the name and the number of grids", g.name == "g" and all(getattr(g, k) == v for k, v in a["kw"].items()))
        both = m in ("index", "index default")
        refuse = bool(a["drop"]) or m.startswith("index") and (a["start"] is None or both and a["end"] is None)
        P.check(f"refused exactly when a column or a time is missing ({how})", (how == "AttributeError") == refuse)
        if refuse or m != "strip in place":
            P.check("the grid is unchanged", content(g, b) == "" and not lost(g, a["attrs"], a["attrs"]))
            P.check("and its index", list(g.index.names) == list(b.index.names))
        if refuse:
            return
        needed = set(RATEGRID) | ({"grid_id"} if "grid_id" in b.columns else set())
        if m.startswith("strip"):
            if m == "strip in place":
                P.check("nothing is returned", r is None)
                r = g
            d = content(r, b[[c for c in b.columns if c in needed]])
            P.check(f"exactly the needed columns ({d})", d == "")
            P.check("attributes kept", not lost(r, a["attrs"], a["attrs"]))
            P.check("the same class", type(r) is type(g))
            return
        levels = ["starttime", "endtime", "cell_id"] if both else ["starttime", "cell_id"]
        P.check("the levels of the index", sorted(r.index.names) == sorted(levels) and r.index.names[0] == "starttime")
        P.check("one row per row", content(pd.DataFrame(r).reset_index(drop=True), b.reset_index(drop=True)) == "")
        P.check("the start of the grid", all(v == a["start"] for v in r.index.get_level_values("starttime")))
        if both:
            P.check("the end of the grid", all(v == a["end"] for v in r.index.get_level_values("endtime")))
        cell = [tuple("nan" if v != v else v for v in row) for row in b[RATEGRID[:6]].values.tolist()]
        ids = list(r.index.get_level_values("cell_id"))
        P.check("one number per cell", len(set(zip(cell, ids))) == len(set(cell)) == len(set(ids)))
        P.check("the same class", type(r) is type(g))
        P.check("the name", r.name == "g")
        P.check("the start time", r.starttime == a["start"])
