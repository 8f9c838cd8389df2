"""C23: transformations of catalogues."""
import re
from fractions import Fraction
from decimal import Decimal

import numpy as np

from pyvc.core import Ctx
from pyvc.spec import CON, SYM
from .common import Unit, get, unit
from .c01_binning import binned
from .c11_convenience import same

CAT = "catalogs.catalog"
FQ = "seismostats.catalogs.catalog:Catalog."
META = ["name", "mc", "a_value", "delta_m", "b_value", "starttime", "endtime", "bounding_polygon", "depth_min", "depth_max"]


# ---- binning, over the parts of a catalogue it uses --------------------------------

class Frame:
    """columns and attributes; copy() gives another one"""

    def __init__(self, cols, attrs):
        self.__dict__["cols"], self.__dict__["attrs"] = dict(cols), dict(attrs)

    @property
    def columns(self):
        return list(self.cols)

    def __getitem__(self, k):
        return self.cols[k]

    def __setitem__(self, k, v):
        self.cols[k] = v

    def __getattr__(self, k):
        if not k.startswith("__"):
            for d in (self.attrs, self.cols):
                if k in d:
                    return d[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        (self.cols if k in self.cols else self.attrs)[k] = v

    def copy(self, deep=True):
        return Frame(self.cols, self.attrs)


@unit("catalog_bin_magnitudes", ["C23", "C11"], [FQ + "bin_magnitudes"], cases=200)
class BinMagnitudes(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 8)
        w = lambda g: float(g.choice([0.1, 0.2, 0.5, 0.01, 1.0]))
        opt = lambda name: V.real(name, gt=1e-6, gen=w) if V.choice(name + " given", [None, 1]) else None
        a = {"x": V.arr("x", n, gen=lambda g, k: np.round(g.random(k) * 6 - 1, 3)), "y": V.arr("y", n), "d": opt("delta_m"),
             "own": opt("attribute delta_m"), "inplace": V.choice("inplace", [False, True]), "mc": V.real("mc")}
        return a

    def raises(self, S, a):
        return [(a["d"] is None and a["own"] is None, ValueError, "no bin width")]

    def run(self, a):
        a["cat"] = Frame({"magnitude": a["x"], "other": a["y"]}, {"delta_m": a["own"], "mc": a["mc"], "name": "n"})
        kw = {} if a["d"] is None else {"delta_m": a["d"]}
        return get(CAT + ":Catalog").bin_magnitudes(a["cat"], inplace=a["inplace"], **kw)

    def post(self, P, S, a, r):
        d = a["own"] if a["d"] is None else a["d"]
        cat = a["cat"]
        if a["inplace"]:
            P.check("nothing is returned", r is None)
            r = cat
        else:
            P.check("a new catalogue", r is not cat)
            P.check("the original keeps its columns", cat["magnitude"] is a["x"] and cat["other"] is a["y"])
            P.check("the original keeps its bin width", same(S, cat.delta_m, a["own"]))
        n = S.len(a["x"])
        P.check("the bin width is recorded", same(S, r.delta_m, d))
        P.check("other attributes stay", same(S, r.mc, a["mc"]) and r.name == "n")
        P.check("other columns stay", r["other"] is a["y"] and r.columns == ["magnitude", "other"])
        if S.symbolic:
            P.eq("magnitudes binned", r["magnitude"], S.seq(n, lambda i: binned(S, S.at(a["x"], i), d)))
        else:
            P.eq("magnitudes binned", np.asarray(r["magnitude"], dtype=float), rounded(a["x"], d))


def rounded(x, d):
    """nearest multiple, halves up, in decimal arithmetic"""
    D = Fraction(Decimal(str(float(d))))
    return np.array([np.nan if v != v else float(D * ((Fraction(Decimal(repr(float(v)))) / D + Fraction(1, 2)) // 1))
                     for v in x], dtype=float)


# ---- sequences of transformations on whole catalogues -----------------------------

CORE = ["longitude", "latitude", "depth", "time", "magnitude", "magnitude_type"]
MORE = ["event_type", "eventID", "originID", "magnitudeID", "magnitude_ML", "magnitude_ML_magnitudeID", "magnitude_uncertainty",
        "magnitude_ML_uncertainty", "depth_lowerUncertainty", "time_confidenceLevel", "latitude_upperUncertainty",
        "uncertainty_note", "eventID_source", "usedphasecount", "my_uncertainty_2", "confidenceLevel"]
UNC = re.compile("(_uncertainty|_lowerUncertainty|_upperUncertainty|_confidenceLevel)$")
IDS = re.compile("(eventID|originID|magnitudeID)$")


def gen_catalog(V, n, must=CORE):
    import pandas as pd
    g = V.rng
    cols = [c for c in CORE if c in must or g.random() < 0.8] + [c for c in MORE if g.random() < 0.5]
    cols = [cols[i] for i in g.permutation(len(cols))]
    forecast = bool(V.choice("forecast", [False, False, False, True]))
    if forecast:
        cols.append("catalog_id")
    data = {}
    for c in cols:
        if c == "time" or c.startswith("time_x"):
            data[c] = pd.Timestamp("2021-03-04") + pd.to_timedelta(np.round(g.random(n) * 1e6, 3), unit="s")
        elif c == "magnitude_type":
            data[c] = list(g.choice(["ML", "Mw", None], n))
        elif c in ("event_type", "uncertainty_note", "eventID_source") or c.endswith("ID"):
            data[c] = [f"{c}{i % 5}" for i in range(n)]
        elif c == "catalog_id":
            data[c] = g.integers(0, 3, n)
        elif c == "magnitude":
            x = np.round(g.random(n) * 6 - 1, int(g.integers(1, 4)))
            x[g.random(n) < 0.1] = np.nan
            data[c] = x
        else:
            data[c] = np.round(g.random(n) * 90, 3)
    kind = V.choice("index", ["range", "shuffled", "repeated", "names"])
    idx = {"range": list(range(n)), "shuffled": list(map(int, np.random.default_rng(n).permutation(n) + 3)),
           "repeated": [i // 2 for i in range(n)], "names": [f"r{i}" for i in range(n)]}[kind]
    kw = {}
    for k, v in (("name", "here"), ("mc", 1.5), ("a_value", 4.0), ("b_value", 1.1), ("delta_m", 0.1), ("depth_min", 0),
                 ("depth_max", 10.0), ("starttime", pd.Timestamp("2020-01-01")), ("endtime", pd.Timestamp("2022-01-01")),
                 ("bounding_polygon", "POLYGON((0 0, 1 0, 1 1, 0 0))")):
        if V.choice("meta " + k, [True, True, False]):
            kw[k] = v
    cls = get(CAT + (":ForecastCatalog" if forecast else ":Catalog"))
    if forecast:
        kw["n_catalogs"] = 7
    c = cls(data, index=idx, **kw)
    V.values["catalogue"] = {k: list(map(str, v)) for k, v in data.items()}
    return c


def state(c):
    import pandas as pd
    return pd.DataFrame(c).copy(deep=True), {k: getattr(c, k, None) for k in META + ["n_catalogs"]}, type(c).__name__


def differs(c, want):
    """'' if catalogue c has the wanted content, attributes and class"""
    import pandas as pd
    df, meta, cls = state(c)
    if cls != want[2]:
        return f"class {cls}"
    if list(df.columns) != list(want[0].columns):
        return f"columns {list(df.columns)}"
    if list(df.index) != list(want[0].index):
        return f"rows {list(df.index)}"
    for i, k in enumerate(df.columns):
        u, v = df.iloc[:, i], want[0].iloc[:, i]
        for p, q in zip(u, v):
            if not (p == q or (pd.isna(p) and pd.isna(q)) or (k == "magnitude" and abs(p - q) < 1e-12)):
                return f"column {k}: {p} instead of {q}"
    for k, v in want[1].items():
        u = meta[k]
        if not (u == v or (u is None) == (v is None) and (u is None or pd.isna(u) and pd.isna(v))):
            if u is None and pd.isna(v) or v is None and pd.isna(u):
                continue
            return f"attribute {k}: {u} instead of {v}"
    return ""


@unit("catalog_transformations", ["C23", "C14"], [FQ + m for m in ("bin_magnitudes", "strip", "drop_uncertainties", "drop_ids",
                                                                   "__init__", "__finalize__")], symbolic=False, cases=200,
      why_bounded="pandas data frames; bin_magnitudes is proved over the parts it uses (catalog_bin_magnitudes)")
class Transformations(Unit):
    """sequences of up to four transformations"""

    def inputs(self, V):
        n = V.int("n", 0, 9)
        a = {"cat": gen_catalog(V, n)}
        a["ops"] = []
        for j in range(V.int("steps", 1, 4)):
            op = V.choice(f"step {j}", ["bin", "bin own", "strip", "uncertainties", "ids"])
            a["ops"].append((op, V.choice(f"inplace {j}", [False, True]) and op in ("bin", "bin own", "strip"),
                             V.choice(f"width {j}", [0.1, 0.2, 0.5, 1.0])))
        return a

    def raises(self, S, a):
        own, miss = a["cat"].delta_m, False
        for op, _, d in a["ops"]:
            miss |= op == "bin own" and own is None
            own = d if op == "bin" else own
        return [(miss, ValueError, "no bin width")]

    def run(self, a):
        c = a["cat"].copy()
        a["steps"] = []
        for op, inplace, d in a["ops"]:
            before = state(c)
            own = c.delta_m
            if op in ("bin", "bin own"):
                kw = {"delta_m": d} if op == "bin" else {}
                r = c.bin_magnitudes(inplace=inplace, **kw)
            elif op == "strip":
                r = c.strip(inplace=inplace)
            else:
                r = c.drop_uncertainties() if op == "uncertainties" else c.drop_ids()
            old = differs(c, before) if not inplace else ("" if r is None else "something is returned")
            r = c if inplace else r
            a["steps"].append((op, d if op == "bin" else own, before, old, r is c and not inplace, self.wrong(op, d, own, before, r)))
            c = r
        return len(a["steps"])

    def wrong(self, op, d, own, before, r):
        df, meta, cls = before
        df, meta = df.copy(), dict(meta)
        if op in ("bin", "bin own"):
            w = d if op == "bin" else own
            df["magnitude"] = rounded(df["magnitude"], w)
            meta["delta_m"] = w
        elif op == "strip":
            keep = CORE + (["catalog_id"] if cls == "ForecastCatalog" else [])
            df = df[[k for k in df.columns if k in keep]]
        else:
            rx = UNC if op == "uncertainties" else IDS
            df = df[[k for k in df.columns if not rx.search(k)]]
        return differs(r, (df, meta, cls))

    def post(self, P, S, a, r):
        for j, (op, w, before, old, alias, wrong) in enumerate(a["steps"]):
            P.check(f"step {j} {op}: {wrong}", not wrong)
            P.check(f"step {j} {op}: the original: {old}", not old)
            P.check(f"step {j} {op}: a new catalogue", not alias)


@unit("cat_intersect_polygon", ["C23", "C14"], ["seismostats.utils.filtering:cat_intersect_polygon"], symbolic=False, cases=120,
      why_bounded="row-wise pandas and shapely calls")
class Intersect(Unit):
    def inputs(self, V):
        g = V.rng
        n = V.int("n", 0, 12)
        a = {"cat": gen_catalog(V, n, ["latitude", "longitude", "magnitude"])}
        a["cat"]["latitude"] = np.round(g.random(n) * 4, 1)
        a["cat"]["longitude"] = np.round(g.random(n) * 4 + 5, 1)
        if V.choice("plain frame", [False, False, True]):
            import pandas as pd
            a["cat"] = pd.DataFrame(a["cat"])
        V.values["points"] = list(zip(a["cat"]["latitude"], a["cat"]["longitude"]))
        k = V.choice("polygon", ["box", "triangle", "star"])
        x0, y0, w, h = [float(v) for v in np.round(g.random(4) * 2, 1) + [0, 5, 0.3, 0.3]]
        a["poly"] = {"box": [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)], "triangle": [(x0, y0), (x0 + w, y0), (x0, y0 + h)],
                     "star": [(x0, y0), (x0 + w, y0), (x0 + w / 3, y0 + h / 3), (x0, y0 + h)]}[k]
        V.values["vertices"] = a["poly"]
        a["before"] = a["cat"].copy(deep=True)
        return a

    def run(self, a):
        return get("utils.filtering:cat_intersect_polygon")(a["cat"], a["poly"])

    def post(self, P, S, a, r):
        from shapely.geometry import Point, Polygon
        p = Polygon(a["poly"])
        c = a["before"]
        keep = [bool(p.intersects(Point(x, y))) for x, y in zip(c["latitude"], c["longitude"])]
        want = c[np.array(keep, dtype=bool)]
        P.check("the same columns", list(r.columns) == list(c.columns))
        P.check(f"exactly the rows in or on the polygon: {list(r.index)} {list(want.index)}",
                len(r) == len(want) and not differs_rows(r, want))
        P.check("attributes are kept", all(same_meta(getattr(r, k, None), getattr(c, k, None)) for k in META))


def same_meta(u, v):
    import pandas as pd
    return u is v or u == v or (u is None or pd.isna(u)) and (v is None or pd.isna(v))


def differs_rows(r, want):
    import pandas as pd
    if list(r.index) != list(want.index):
        return True
    return any(not (p == q or pd.isna(p) and pd.isna(q)) for k in range(len(want.columns))
               for p, q in zip(r.iloc[:, k], want.iloc[:, k]))
