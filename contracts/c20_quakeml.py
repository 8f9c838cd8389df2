"""C20: reading QuakeML."""
import gzip
import io
import itertools
import os
import tempfile
import xml.etree.ElementTree as ET
import xml.sax
from datetime import datetime, timezone
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from .common import Unit, get, unit

M = "io.parser"
FQ = "seismostats.io.parser:"
FUNCTIONS = [FQ + f for f in (
    "QuakeMLHandler.setter", "QuakeMLHandler.startElement", "QuakeMLHandler.endElement", "QuakeMLHandler.characters",
    "parse_quakeml", "parse_quakeml_file", "parse_quakeml_response", "_parse_to_dict", "_select_magnitude_by_id",
    "_select_origin_by_id", "_select_secondary_magnitudes", "_extract_origin", "_extract_magnitude",
    "_extract_secondary_magnitudes")]

PARTS = {"value": "", "uncertainty": "_uncertainty", "lowerUncertainty": "_lowerUncertainty",
         "upperUncertainty": "_upperUncertainty", "confidenceLevel": "_confidenceLevel"}
QUALITY = ["associatedPhaseCount", "usedPhaseCount", "associatedStationCount", "usedStationCount", "depthPhaseCount",
           "standardError", "azimuthalGap", "secondaryAzimuthalGap", "maximumDistance", "minimumDistance", "medianDistance"]
TYPES = ["ML", "Mw", "MLc", "Mw(mB)", "mb"]


# ---- documents ---------------------------------------------------------------

class Writer:
    """a document with the given events; text optionally broken by comments, CDATA and padding"""

    def __init__(self, g):
        self.g = g

    def text(self, s):
        g = self.g
        s = str(s)
        k = g.integers(8)
        if k == 0 and len(s) > 1:
            i = int(g.integers(1, len(s)))
            return escape(s[:i]) + "<!-- c -->" + escape(s[i:])
        if k == 1 and len(s) > 1:
            i = int(g.integers(1, len(s)))
            return escape(s[:i]) + "<![CDATA[" + s[i:] + "]]>"
        if k == 2:
            return "\n   " + escape(s) + "  \n"
        if k == 3:
            return "".join(f"&#{ord(c)};" if g.random() < 0.4 else escape(c) for c in s)
        return escape(s)

    def el(self, tag, *inner, **attrs):
        at = "".join(f" {k}={quoteattr(str(v))}" for k, v in attrs.items())
        sep = "\n " if self.g.random() < 0.5 else ""
        return f"<{tag}{at}>{sep}{sep.join(inner)}{sep}</{tag}>"

    def leaf(self, tag, v):
        return f"<{tag}>{self.text(v)}</{tag}>"

    def quantity(self, tag, q):
        return self.el(tag, *[self.leaf(k, v) for k, v in q.items()])

    def info(self, m):
        inner = [self.leaf("agencyID", "SED")]
        if m.get("version") is not None:
            inner.append(self.leaf("version", m["version"]))
        if m.get("created") is not None:
            inner.append(self.leaf("creationTime", m["created"]))
        return self.el("creationInfo", *inner)

    def origin(self, o):
        inner = [self.quantity(k, o[k]) for k in ("time", "latitude", "longitude", "depth") if k in o]
        if o.get("mode"):
            inner.append(self.leaf("evaluationMode", o["mode"]))
        if o.get("quality"):
            inner.append(self.el("quality", *[self.leaf(k, v) for k, v in o["quality"].items()]))
        if o.get("arrival"):
            inner.append(self.el("arrival", self.leaf("pickID", "smi:p/1"), self.leaf("phase", "Pg"), publicID="smi:a/1"))
        return self.el("origin", *inner, publicID=o["id"])

    def magnitude(self, m):
        inner = [self.quantity("mag", m["mag"])]
        if m.get("type") is not None:
            inner.append(self.leaf("type", m["type"]))
        if m.get("info", True):
            inner.append(self.info(m))
        return self.el("magnitude", *inner, publicID=m["id"])

    def event(self, e):
        inner = []
        if e.get("type") is not None:
            inner.append(self.leaf("type", e["type"]))
        inner.append(self.el("description", self.leaf("text", "Visp VS & around"), self.leaf("type", "region name")))
        for k, v in (("preferredOriginID", e.get("po")), ("preferredMagnitudeID", e.get("pm"))):
            if v is not None:
                inner.append(self.leaf(k, v))
        parts = [self.origin(o) for o in e["origins"]] + [self.magnitude(m) for m in e["magnitudes"]]
        inner += [parts[i] for i in self.g.permutation(len(parts))]
        if e.get("amplitude"):
            inner.append(self.el("amplitude", self.quantity("genericAmplitude", {"value": 3}), self.leaf("type", "AML"),
                                 publicID="smi:amp"))
            inner.append(self.el("stationMagnitude", self.quantity("mag", {"value": 9.9}), self.leaf("type", "MLx")))
        if e.get("late type"):
            inner = inner[1:] + inner[:1]
        return self.el("event", *inner, publicID=e["id"])

    def document(self, events):
        return ('<?xml version="1.0" encoding="UTF-8"?>\n<q:quakeml xmlns="http://quakeml.org/xmlns/bed/1.2" '
                'xmlns:q="http://quakeml.org/xmlns/quakeml/1.2">'
                + self.el("eventParameters", self.el("comment", self.leaf("text", "all events")),
                          *[self.event(e) for e in events], publicID="smi:all") + "</q:quakeml>")


def quantity(g, v):
    q = {"value": v}
    for k in list(PARTS)[1:]:
        if g.random() < 0.3:
            q[k] = float(np.round(g.random(), 3))
    return q


def gen_events(g, untyped=True):
    out = []
    for e in range(int(g.integers(0, 4))):
        name = f"smi:ch/{['event', 'e?a=1&b=2', 'é'][int(g.integers(3))]}/{e}"
        ev = {"id": name, "origins": [], "magnitudes": [], "amplitude": g.random() < 0.4, "late type": g.random() < 0.5}
        if g.random() < 0.85:
            ev["type"] = str(g.choice(["earthquake", "quarry blast", "not existing", "mine collapse", "other event"]))
        for i in range(int(g.integers(0, 4))):
            o = {"id": f"{name}/o{i}", "arrival": g.random() < 0.4}
            o["time"] = quantity(g, f"2020-01-0{i + 1}T00:0{e}:00.12Z")
            o["latitude"], o["longitude"] = quantity(g, 46 + i / 10), quantity(g, 7 + i / 10)
            if g.random() < 0.8:
                o["depth"] = quantity(g, 1000 * i)
            if g.random() < 0.6:
                o["mode"] = str(g.choice(["manual", "automatic"]))
            if g.random() < 0.6:
                o["quality"] = {k: int(g.integers(1, 200)) for k in QUALITY if g.random() < 0.5}
            ev["origins"].append(o)
        stamps = {t: (g.random() < 0.7, g.random() < 0.7) for t in TYPES + [None]}
        for i in range(int(g.integers(0, 7))):
            t = None if untyped and g.random() < 0.1 else TYPES[int(g.integers(len(TYPES)))]
            v, c = stamps[t]
            m = {"id": f"{name}/m{i}", "type": t, "mag": quantity(g, float(np.round(g.random() * 5, 2)))}
            if v:
                m["version"] = [1, 2, 10, "1.5", "03"][int(g.integers(5))]
            if c:
                m["created"] = f"20{int(g.choice([10, 10, 11, 12]))}-01-02T03:04:0{int(g.choice([0, 0, 1, 5]))}" + \
                    ["", "Z", ".250000Z", ".75", "+01:00", f".{int(g.integers(10))}Z"][int(g.integers(6))]
            m["info"] = v or c or g.random() < 0.5
            ev["magnitudes"].append(m)
        for k, xs in (("po", ev["origins"]), ("pm", ev["magnitudes"])):
            r = g.random()
            if xs and r < 0.8:
                ev[k] = xs[int(g.integers(len(xs)))]["id"]
            elif r > 0.9:
                # nothing, or what belongs to another event
                others = [x["id"] for f in out for x in f["origins" if k == "po" else "magnitudes"]]
                ev[k] = others[int(g.integers(len(others)))] if others and g.random() < 0.7 else "smi:missing"
        out.append(ev)
    return out


# ---- what a reader should give -------------------------------------------------

def stamp(s):
    s, zone = s.rstrip("Z"), 0
    if s.endswith("+01:00"):
        s, zone = s[:-6], 3600
    d, _, f = s.partition(".")
    return datetime.strptime(d, "%Y-%m-%dT%H:%M:%S").replace(tzinfo=timezone.utc).timestamp() + float("0." + (f or "0")) - zone


def newest(ms):
    """the magnitudes any of which may be given (several if they have the same version and time)"""
    key = lambda m: (float(m["version"]) if "version" in m else 0.0, stamp(m["created"]) if "created" in m else 0.0)
    top = max(key(m) for m in ms)
    return [m for m in ms if abs(key(m)[0] - top[0]) < 1e-9 and abs(key(m)[1] - top[1]) < 1e-9]


def fields(prefix, q):
    return {prefix + PARTS[k]: str(v) for k, v in q.items()}


def expected(e, every, quality):
    """the fields of an event, those of the secondary magnitudes by type with their alternatives"""
    want = {"eventID": e["id"]}
    if "type" in e:
        want["event_type"] = e["type"]
    for o in e["origins"]:
        if o["id"] == e.get("po"):
            for k in ("time", "latitude", "longitude", "depth"):
                want |= fields(k, o.get(k, {}))
            want["originID"] = o["id"]
            if o.get("mode"):
                want["evaluationmode"] = o["mode"]
            if quality:
                want |= {k.lower(): str(v) for k, v in o.get("quality", {}).items()}
    main = None
    for m in e["magnitudes"]:
        if m["id"] == e.get("pm"):
            main = m
            want |= fields("magnitude", m["mag"]) | {"magnitudeID": m["id"]}
            if m["type"] is not None:
                want["magnitude_type"] = m["type"]
    secondary = {}
    if every:
        for t in {m["type"] for m in e["magnitudes"]} - {None}:
            ms = [main] if main is not None and main["type"] == t else newest(
                [m for m in e["magnitudes"] if m["type"] == t])
            secondary[t] = [fields(f"magnitude_{t}", m["mag"]) | {f"magnitude_{t}_magnitudeID": m["id"]} for m in ms]
    return want, secondary


def matches(got, e, every, quality):
    want, secondary = expected(e, every, quality)
    got = {k: v for k, v in got.items() if v is not None}
    for pick in itertools.product(*secondary.values()):
        w = dict(want)
        for p in pick:
            w |= p
        if got == w:
            return ""
    w = dict(want)
    for p in secondary.values():
        w |= p[0]
    return f"differs in {sorted(set(got.items()) ^ set(w.items()))[:6]}"


class Raw(io.BytesIO):
    """a response's stream that hands out the document in small pieces"""
    decode_content = False

    def __init__(self, data, size, packed):
        super().__init__(data)
        self.size, self.packed = size, packed

    def read(self, n=-1):
        if self.packed and not self.decode_content and self.tell() == 0:
            self.__init__(gzip.compress(self.getvalue()), self.size, False)
        return super().read(self.size if n is None or n < 0 else min(n, self.size))


def fed(doc, g, every, quality):
    """the handler behind a reader that gets the document piece by piece"""
    out = []
    h = get(M + ":QuakeMLHandler")(out, every, quality)
    p = xml.sax.make_parser()
    p.setContentHandler(h)
    data, i = doc.encode("utf-8"), 0
    while i < len(data):
        k = int(g.integers(1, 12))
        p.feed(data[i:i + k])
        i += k
    p.close()
    return out


class Splitting:
    """a handler that gets character data in arbitrary pieces"""

    def __init__(self, h, g):
        self.h, self.g = h, g

    def __getattr__(self, name):
        return getattr(self.h, name)

    def characters(self, s):
        i = 0
        while i < len(s):
            k = int(self.g.integers(1, 4))
            self.h.characters(s[i:i + k])
            i += k


def split(doc, g, every, quality):
    out = []
    xml.sax.parseString(doc.encode("utf-8"), Splitting(get(M + ":QuakeMLHandler")(out, every, quality), g))
    return out


@unit("quakeml_documents", ["C20"], FUNCTIONS, symbolic=False, cases=250,
      why_bounded="strings and nested dictionaries are outside the verifier's logic; the reading of XML is the standard library's")
class Documents(Unit):
    def inputs(self, V):
        g = V.rng
        a = {"events": gen_events(g, V.choice("untyped magnitudes", [True, False])), "every": V.choice("all magnitudes", [True, True, False]),
             "quality": V.choice("quality", [True, False])}
        a["g"] = np.random.default_rng(V.int("seed", 0, 10 ** 6))
        a["doc"] = Writer(a["g"]).document(a["events"])
        a["by"] = V.choice("delivery", ["string", "file", "response", "fed", "split"])
        V.values.append(("document", a["doc"])) if isinstance(V.values, list) else V.values.__setitem__("document", a["doc"])
        return a

    def run(self, a):
        doc, kw = a["doc"], dict(include_all_magnitudes=a["every"], include_quality=a["quality"])
        if a["every"] and a["quality"] and a["g"].random() < 0.4:
            kw = {}         # the defaults
        if a["by"] == "string":
            return get(M + ":parse_quakeml")(doc, **kw)
        if a["by"] == "file":
            with tempfile.TemporaryDirectory() as d:
                p = os.path.join(d, "x.xml")
                with open(p, "w", encoding="utf-8") as f:
                    f.write(doc)
                return get(M + ":parse_quakeml_file")(p, **kw)
        if a["by"] == "response":
            r = type("Response", (), {})()
            empty = not a["events"] and a["g"].random() < 0.5
            r.raw = Raw(b"" if empty else doc.encode("utf-8"), int(a["g"].integers(1, 60)), a["g"].random() < 0.5)
            return get(M + ":parse_quakeml_response")(r, **kw)
        return (fed if a["by"] == "fed" else split)(doc, a["g"], a["every"], a["quality"])

    def post(self, P, S, a, r):
        P.check(f"one entry per event: {len(r)}", len(r) == len(a["events"]))
        for e, got in zip(a["events"], r):
            d = matches(got, e, a["every"], a["quality"])
            P.check(f"its own attributes: {d}", not d)
