"""C22: queries to an FDSN event service."""
from datetime import datetime
import io

import numpy as np

from pyvc.core import Ctx
from pyvc.runtime import Fresh, State
from pyvc.spec import CON, SYM
from .common import Unit, get, mod, unit
from .c20_quakeml import Writer

M = "catalogs.client"
FQ = "seismostats.catalogs.client:FDSNWSEventClient."
URL = "http://server/fdsnws/event/1/query"


class Requests:
    """the requests library in front of a server"""

    def __init__(self, answer):
        self.answer, self.log = answer, []

    def get(self, url, params=None, **kw):
        params = dict(params or {})
        self.log.append(params)
        return self.answer(params)


class Response:
    def __init__(self, status, content):
        self.status_code, self.content = status, content
        self.raw = io.BytesIO(content if isinstance(content, bytes) else b"")
        self.ok = status < 400
        self.text = content.decode("utf-8") if isinstance(content, bytes) else ""
        self.headers = {}

    def raise_for_status(self):
        if self.status_code >= 400:
            raise IOError(self.status_code)

    def close(self):
        pass


def served(a, f):
    """f() with the server's answers in place of the network"""
    import requests
    r = a["requests"] = Requests(a["answer"])
    if Ctx.cur is not None:
        mod(M).requests = r
        return f()
    keep = requests.sessions.Session.request
    requests.sessions.Session.request = lambda self, method, url, params=None, **kw: r.get(url, params)
    try:
        return f()
    finally:
        requests.sessions.Session.request = keep


# ---- number of batches ---------------------------------------------------------

def exists(a, j):
    """the server has an event at the start of batch j"""
    return j * a["size"] + 1 <= a["total"]


def _grow(S, k, L):
    a = _grow.a
    return State({"chunk": Fresh("int")}, lambda cur: [
        cur["chunk"] >= 1, S.or_(S.eq(cur["chunk"], 1), exists(a, cur["chunk"] // 2))])


def _bisect(S, k, L):
    a = _bisect.a
    low0 = L.pre["low"]

    def cond(cur):
        lo, hi, v = cur["low"], cur["high"], cur["last_valid_chunk"]
        return [lo >= 0, hi >= -1, v >= 0, S.not_(exists(a, hi + 1)), S.or_(S.eq(v, 0), exists(a, v)),
                S.or_(S.eq(v, lo - 1), S.and_(S.eq(v, 0), S.eq(lo, low0), S.or_(S.eq(lo, 0), exists(a, lo)))), hi + 1 >= lo]
    return State({"low": Fresh("int"), "high": Fresh("int"), "last_valid_chunk": Fresh("int")}, cond)


@unit("batch_count", ["C22"], [FQ + "_get_batch_count", FQ + "_exists_with_offset"], cases=250)
class BatchCount(Unit):
    """just enough batches for the events on the server, at least one"""
    loops = {("FDSNWSEventClient._get_batch_count", 0): _grow, ("FDSNWSEventClient._get_batch_count", 1): _bisect}

    def inputs(self, V):
        a = {"size": V.int("batch_size", 1, gen=None if V.symbolic else lambda g: int(g.choice([1, 2, 3, 7, 10, 100, 20000]))),
             "total": V.int("total", 0, gen=None if V.symbolic else lambda g: int(g.choice(
                 [0, 1, 2, 3, 7, 9, 10, 11, 20, 21, 99, 100, 101, 1000, 20000, 20001, 65536, int(g.integers(0, 5000))])))}
        _grow.a = _bisect.a = a
        a["status"] = V.choice("status without events", [204, 404, "200 empty"])

        def answer(p):
            S = SYM if Ctx.cur is not None else CON
            if bool(p["offset"] <= a["total"]):
                return Response(200, b"x")
            return Response(200, b"") if a["status"] == "200 empty" else Response(a["status"], b"no" if a["status"] == 404 else b"")
        a["answer"] = answer
        return a

    def run(self, a):
        c = get(M + ":FDSNWSEventClient")(URL)
        return served(a, lambda: c._get_batch_count(a["size"]))

    def post(self, P, S, a, r):
        P.check("at least one batch", r >= 1)
        P.check("all events are covered", r * a["size"] >= a["total"])
        P.check("no batch is empty", S.or_(S.eq(r, 1), exists(a, r - 1)))


BOUNDS = {"min_latitude": "minlatitude", "max_latitude": "maxlatitude", "min_longitude": "minlongitude",
          "max_longitude": "maxlongitude", "max_magnitude": "maxmagnitude"}


class Query(Unit):
    def arguments(self, V):
        a = {}
        num = lambda g: float(np.round(g.random() * 8 - 3, 1)) if g.random() < 0.7 else 0.0
        if V.symbolic:      # all bounds or none, or just one
            which = V.choice("given", ["all", "none"] + list(BOUNDS) + ["min_magnitude"])
            given = lambda k: which in ("all", k)
        else:
            given = lambda k: bool(V.choice("given " + k, [True, False]))
        for k in list(BOUNDS) + ["min_magnitude"]:
            if given(k):
                a[k] = V.real(k, gen=num)
        dm = V.choice("delta_m", ["default", None, "number"])
        if dm != "default":
            a["delta_m"] = dm and V.real("delta_m", lo=0, gen=lambda g: float(g.choice([0.0, 0.1, 0.01, 0.5])))
        for k in ("start_time", "end_time"):
            if (which == "all" if V.symbolic else V.choice(k, [None, 1])):
                a[k] = datetime(2020, 1, 2, 3, 4, 5) if k[0] == "s" else datetime(2021, 12, 31)
        if (which == "all" if V.symbolic else V.choice("event type", [None, 1])):
            a["event_type"] = "earthquake"
        return a

    def wanted(self, S, a):
        """the bounds under their names"""
        g = a["args"]
        w = {q: g[k] for k, q in BOUNDS.items() if k in g}
        if "min_magnitude" in g:
            d = g.get("delta_m", 0.1)
            w["minmagnitude"] = g["min_magnitude"] - (d / 2 if d is not None else 0)
        for k, q in (("start_time", "starttime"), ("end_time", "endtime")):
            if k in g:
                w[q] = g[k].strftime("%Y-%m-%dT%H:%M:%S")
        if "event_type" in g:
            w["eventtype"] = g["event_type"]
        return w | a["extra"]

    def compare(self, P, S, name, sent, want):
        sent = {k: v for k, v in sent.items() if k != "includeallmagnitudes" and v is not None}
        P.check(f"{name}: exactly these parameters {sorted(sent)} {sorted(want)}" if not S.symbolic
                else f"{name}: exactly the given parameters", set(sent) == set(want))
        for k in sorted(set(want) & set(sent)):
            if isinstance(want[k], (str, bool)) or want[k] is None:
                P.check(f"{name}: {k}", sent[k] == want[k])
            else:
                P.eq(f"{name}: {k}", S.num(sent[k]), S.num(want[k]))


@unit("query_parameters", ["C22"], [FQ + "get_events"], cases=150, budget=60.0)
class Parameters(Query):
    """a single request with every bound under its name"""

    def inputs(self, V):
        a = {"args": self.arguments(V), "extra": V.choice("further", [{}, {"mindepth": 0, "catalog": "x"}])}
        a["twice"] = V.choice("asked before", [False, True])
        a["answer"] = lambda p: Response(204, b"")
        return a

    def run(self, a):
        if Ctx.cur is not None:
            m = mod(M)
            m.parse_quakeml_response = lambda r, **k: []
            m.Catalog = type("Catalog", (), {"from_dict": staticmethod(lambda *x: type("C", (), {})())})

        def ask():
            c = get(M + ":FDSNWSEventClient")(URL)
            if a["twice"]:
                c.get_events(min_latitude=1, max_magnitude=9, start_time=datetime(1999, 1, 1), mindepth=4)
            return c.get_events(**a["args"], **a["extra"])
        return served(a, ask)

    def post(self, P, S, a, r):
        log = a["requests"].log
        P.check("one request", len(log) == 1 + a["twice"])
        self.compare(P, S, "request", log[-1], self.wanted(S, a))
        for k, q in (("start_time", "starttime"), ("end_time", "endtime")):
            if k in a["args"]:
                P.check("the catalogue knows its period: " + q, getattr(r, q) == a["args"][k])


@unit("batched_query", ["C22"], [FQ + "get_events", FQ + "_get_events_batched", FQ + "_get_batch_params"], symbolic=False,
      cases=80, why_bounded="lists of requests; the number of batches is proved in batch_count, the parameters in query_parameters")
class Batched(Query):
    """a server of N events, asked in batches, gives each event once"""

    def inputs(self, V):
        a = {"args": self.arguments(V), "extra": {}}
        a["size"] = V.int("batch_size", 1, gen=lambda g: int(g.integers(1, 8)))
        a["total"] = V.int("total", 0, gen=lambda g: int(g.integers(0, 40)))
        w = Writer(np.random.default_rng(3))
        events = [{"id": f"e{i}", "type": "earthquake", "po": "o", "pm": "m",
                   "origins": [{"id": "o", "time": {"value": f"2020-01-01T00:00:{i % 60:02d}"}, "latitude": {"value": 46},
                                "longitude": {"value": 7}, "depth": {"value": 1000}}],
                   "magnitudes": [{"id": "m", "type": "ML", "mag": {"value": i / 10}}]} for i in range(a["total"])]

        def answer(p):
            o, n = int(p.get("offset", 1)), p.get("limit")
            part = events[o - 1:] if n is None else events[o - 1:o - 1 + int(n)]
            return Response(200, w.document(part).encode("utf-8")) if part else Response(204, b"")
        a["answer"] = answer
        return a

    def run(self, a):
        c = get(M + ":FDSNWSEventClient")(URL)
        return served(a, lambda: c.get_events(**a["args"], include_ids=True, batch_size=a["size"]))

    def post(self, P, S, a, r):
        n, k = a["total"], a["size"]
        ids = list(r["eventID"]) if n else list(r.get("eventID", []))
        P.check(f"each event once, in order: {ids}", ids == [f"e{i}" for i in range(n)])
        log = a["requests"].log
        want = self.wanted(S, a)
        for p in log:
            self.compare(P, S, "request", {q: v for q, v in p.items() if q not in ("limit", "offset")}, want)
        got = [(int(p["offset"]), int(p["limit"])) for p in log]
        batches = [(1 + i * k, k) for i in range(max(1, -(-n // k)))]
        P.check(f"consecutive batches: {got}", got[len(got) - len(batches):] == batches)
        P.check("nothing before them but probes", k == 1 or all(lim == 1 for _, lim in got[:len(got) - len(batches)]))
