"""C19: local coordinates."""
import numpy as np

from pyvc.core import Ctx, SArr
from pyvc.spec import CON, SYM
from .common import Unit, get, mod, unit

M = "utils.coordinates"
FQ = "seismostats.utils.coordinates:"
CT = FQ + "CoordinateTransformer."


# ---- pyproj and shapely by contract ----------------------------------------

class Proj:
    """pyproj's transformer between two projections: functions of x, y (and z); the transformer of the opposite
    direction undoes it"""
    log = []

    def __init__(self, src, dst):
        self.src, self.dst = src, dst

    @classmethod
    def from_proj(cls, src, dst, always_xy=False):
        if always_xy is not True:
            raise TypeError("the axis order is that of the projection")
        Ctx.cur.note_external("pyproj: the transformers of a projection and its inverse undo each other")
        return cls(src, dst)

    def transform(self, x, y, z=None):
        args = [x, y] + ([] if z is None else [z])
        S, name = SYM, f"proj {self.src} {self.dst} "
        f = lambda *p: [S.fn(name + "xyz"[i] + str(len(p)), *p) for i in range(len(p))]
        arrays = [v for v in args if isinstance(v, SArr)]
        at = lambda v, i: S.at(v, i) if isinstance(v, SArr) else v
        if arrays:
            n = S.len(arrays[0])
            out = [S.seq(n, lambda i, q=q: f(*[at(v, i) for v in args])[q]) for q in range(len(args))]
        else:
            n = None
            out = f(*args)
        c = Ctx.cur
        for src, dst, ins, outs in Proj.log:
            if (src, dst) == (self.dst, self.src) and len(ins) == len(args):
                same = lambda p, q: S.and_(*[S.eq(u, v) for u, v in zip(p, q)])
                el = lambda vs, i: [at(v, i) for v in vs]
                if n is None and not any(isinstance(v, SArr) for v in ins):
                    c.assume(S.implies(same(args, outs), same(out, ins)).t)
                elif n is not None:
                    from pyvc.core import SNum
                    c.fact(lambda i, ins=ins, outs=outs: S.implies(
                        same(el(args, SNum(i)), el(outs, SNum(i))), same(el(out, SNum(i)), el(ins, SNum(i)))).t, 1, None,
                        "inverse projection")
        Proj.log.append((self.src, self.dst, args, out))
        return tuple(out)


class Shape:
    """shapely's polygon as the coordinates of its vertices"""

    def __init__(self, x, y, z=None):
        self.x, self.y, self.z = x, y, z

    @property
    def bounds(self):
        S, n = SYM, SYM.len(self.x)
        r = []
        for f in (S.min, S.max):
            r += [f(n, lambda i: S.at(self.x, i)), f(n, lambda i: S.at(self.y, i))]
        return tuple(r)


def transform(f, p):
    return Shape(*f(p.x, p.y, *([] if p.z is None else [p.z])))


def translate(p, xoff=0.0, yoff=0.0, zoff=0.0):
    S = SYM
    move = lambda v, d: S.seq(S.len(v), lambda i: S.at(v, i) + d)
    return Shape(move(p.x, xoff), move(p.y, yoff), None if p.z is None else move(p.z, zoff))


class Boxes:
    @staticmethod
    def box(minx, miny, maxx, maxy, ccw=True):
        S = SYM
        xs, ys = [maxx, maxx, minx, minx, maxx], [miny, maxy, maxy, miny, miny]
        pick = lambda v: S.seq(S.num(5), lambda i: S.ite(S.or_(*[S.eq(i, k) for k in (0, 1, 4)]), v[0], v[2]))
        pick2 = lambda v: S.seq(S.num(5), lambda i: S.ite(S.or_(*[S.eq(i, k) for k in (1, 2)]), v[1], v[0]))
        return Shape(pick(xs), pick2(ys))


def symbolic():
    if Ctx.cur is None:
        return False
    m = mod(M)
    m.Transformer, m.transform, m.translate, m.geometry = Proj, transform, translate, Boxes
    Proj.log = []
    return True


LOCAL = [2056, "epsg:2056", 21781, 3857, "+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs", 32632, 3035]
POINT = {"lon": (5.5, 11.0), "lat": (45.0, 48.5), "alt": (-3000.0, 9000.0)}


def drawn(V, name, key, n):
    lo, hi = POINT[key]
    if key == "alt" and not V.symbolic and V.rng.random() < 0.4:
        v = float(V.rng.choice([0.0, 400.0, -1500.0]))     # 0 and the altitudes of the reference point
        return V.real(name, gen=lambda g: v) if n is None else V.arr(name, n, gen=lambda g, k: np.full(k, v))
    if n is None:
        return V.real(name, gen=lambda g: float(np.round(lo + g.random() * (hi - lo), 4)))
    return V.arr(name, n, gen=lambda g, k: np.round(lo + g.random(k) * (hi - lo), 4))


def T(S, src, dst, pt):
    """the projection, by the reference library"""
    if S.symbolic:
        p = list(pt) + []
        return [S.fn(f"proj {src} {dst} " + "xyz"[i] + str(len(p)), *p) for i in range(len(p))]
    from pyproj import Transformer
    return Transformer.from_proj(src, dst, always_xy=True).transform(*pt)


class Coordinates(Unit):
    cases = 120

    def inputs(self, V):
        a = {"kind": V.choice("arguments", ["number", "array"] if V.symbolic else ["number", "array", "list"])}
        n = a["n"] = None if a["kind"] == "number" else V.int("n", 1, 5)
        a["local"] = V.choice("local_proj", ["local"] if V.symbolic else LOCAL)
        a["external"] = V.choice("external_proj", ["external"] if V.symbolic else [4326, 4326, 4258, "epsg:4326"])
        a["refproj"] = V.choice("ref_proj", [None, "reference"] if V.symbolic else [None, None, 4326, 3857, 2056])
        k = ["lon", "lat"] if not V.symbolic and a["refproj"] in (4326,) else None
        if V.symbolic:
            a["ref"] = [V.real(f"ref{i}") for i in range(3)]
        else:
            g = V.rng
            lon, lat = [float(np.round(POINT[q][0] + g.random() * (POINT[q][1] - POINT[q][0]), 4)) for q in ("lon", "lat")]
            p = (lon, lat) if k else T(CON, 4326, a["refproj"] or a["local"], (lon, lat))
            if V.choice("no reference", [False, False, True]) and a["refproj"] is None:
                p = (0.0, 0.0)
            a["ref"] = [V.real("ref0", gen=lambda g: float(p[0])), V.real("ref1", gen=lambda g: float(p[1])),
                        V.real("ref2", gen=lambda g: float(g.choice([0.0, 400.0, -1500.0])))]
        a["pt"] = [drawn(V, "lon", "lon", n), drawn(V, "lat", "lat", n)]
        a["alt"] = V.choice("altitude", [None, 1]) and drawn(V, "alt", "alt", n)
        if a["kind"] == "list":
            a["pt"] = [list(map(float, v)) for v in a["pt"]]
            a["alt"] = a["alt"] if a["alt"] is None else list(map(float, a["alt"]))
        return a

    def transformer(self, a):
        symbolic()
        return get(M + ":CoordinateTransformer")(a["local"], *a["ref"], external_proj=a["external"], ref_proj=a["refproj"])

    def origin(self, S, a):
        r = a["ref"]
        if a["refproj"] is None:
            return r
        return list(T(S, a["refproj"], a["local"], r[:2])) + [r[2]]

    def near(self, P, S, name, x, y, tol):
        """equal numbers or sequences"""
        if S.symbolic:
            P.eq(name, x, y)
        else:
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            P.check(f"{name}: {x} {y}", x.shape == y.shape and bool(np.all(np.abs(x - y) <= tol)))


@unit("to_local_coords", ["C19"], [CT + "__init__", CT + "to_local_coords"])
class ToLocal(Coordinates):
    """projected coordinates less the reference point, which therefore is the origin"""

    def run(self, a):
        return self.transformer(a).to_local_coords(*a["pt"], a["alt"]) if a["alt"] is not None else \
            self.transformer(a).to_local_coords(*a["pt"])

    def post(self, P, S, a, r):
        o = self.origin(S, a)
        pt = a["pt"] + ([] if a["alt"] is None else [a["alt"]])
        if S.symbolic:
            f = lambda p: T(S, a["external"], a["local"], p)
            want = [S.seq(a["n"], lambda i, q=q: f([S.at(v, i) for v in pt])[q] - o[q]) if a["n"] is not None
                    else f(pt)[q] - o[q] for q in range(len(pt))]
        else:
            want = [np.asarray(v) - o[q] for q, v in enumerate(T(S, a["external"], a["local"], pt))]
        for q, v in enumerate(want):
            self.near(P, S, "projected, relative to the reference point: " + "xyz"[q], r[q], v, 1e-5)
        if a["alt"] is None:
            P.check("no altitude stays none", r[2] is None)
        P.check("three coordinates", len(r) == 3)


@unit("local_coords_round_trip", ["C19"], [CT + "__init__", CT + "to_local_coords", CT + "from_local_coords"])
class RoundTrip(Coordinates):
    def run(self, a):
        ct = self.transformer(a)
        return ct.from_local_coords(*ct.to_local_coords(*a["pt"], a["alt"]))

    def post(self, P, S, a, r):
        self.near(P, S, "the same longitude", r[0], a["pt"][0], 1e-6)
        self.near(P, S, "the same latitude", r[1], a["pt"][1], 1e-6)
        if a["alt"] is None:
            P.check("no altitude stays none", r[2] is None)
        else:
            self.near(P, S, "the same altitude", r[2], a["alt"], 1e-4)


@unit("external_coords_round_trip", ["C19"], [CT + "__init__", CT + "to_local_coords", CT + "from_local_coords"])
class RoundTripBack(Coordinates):
    """local coordinates to external ones and back"""

    def inputs(self, V):
        a = super().inputs(V)
        if not V.symbolic:      # a local point near the drawn one
            o = T(CON, 4326, a["local"], (8.3, 46.6))
            r = self.origin(CON, a)
            g, n = V.rng, a["n"]
            pt = [float(o[q] - r[q]) + np.round(g.random(n or 1) * 50000, 1) for q in (0, 1)]
            if abs(pt[0][0]) < 2e5 and abs(pt[1][0]) < 2e5:     # on an axis through the reference point
                pt = [v * (g.random() < 0.7) for v in pt]
            a["pt"] = [float(v[0]) if n is None else list(map(float, v)) if a["kind"] == "list" else v for v in pt]
        return a

    def run(self, a):
        ct = self.transformer(a)
        return ct.to_local_coords(*ct.from_local_coords(*a["pt"], a["alt"]))

    def post(self, P, S, a, r):
        self.near(P, S, "the same easting", r[0], a["pt"][0], 0.05)
        self.near(P, S, "the same northing", r[1], a["pt"][1], 0.05)
        if a["alt"] is None:
            P.check("no altitude stays none", r[2] is None)
        else:
            self.near(P, S, "the same altitude", r[2], a["alt"], 1e-3)


@unit("reference_point", ["C19"], [CT + "__init__", CT + "to_local_coords"])
class Reference(Coordinates):
    """the reference point has local coordinates zero, whatever projection it is given in"""

    def run(self, a):
        ct = self.transformer(a)
        if Ctx.cur is not None:
            e = T(SYM, a["external"], a["local"], a["pt"]) if a["n"] is None else None
            o = self.origin(SYM, a)
            if e is None:
                from pyvc.engine import PathEnd
                raise PathEnd()
            Ctx.cur.assume(SYM.and_(SYM.eq(e[0], o[0]), SYM.eq(e[1], o[1])).t)
            return ct.to_local_coords(*a["pt"])
        o = self.origin(CON, a)
        return ct.to_local_coords(*T(CON, a["local"], a["external"], o[:2]))

    def post(self, P, S, a, r):
        self.near(P, S, "easting zero", r[0], 0.0, 1e-2)
        self.near(P, S, "northing zero", r[1], 0.0, 1e-2)


def ring(V, n):
    """a simple polygon"""
    if V.symbolic:
        return V.arr("px", n), V.arr("py", n), V.choice("third dimension", [None, 1]) and V.arr("pz", n)
    g = V.rng
    t = np.sort(g.random(n)) * 2 * np.pi
    c = np.round(POINT["lon"][0] + g.random() * 5, 3), np.round(POINT["lat"][0] + g.random() * 3, 3)
    z = V.choice("third dimension", [None, 1])
    return (V.arr("px", n, gen=lambda g, k: np.round(c[0] + np.cos(t), 4)),
            V.arr("py", n, gen=lambda g, k: np.round(c[1] + np.sin(t), 4)),
            z and V.arr("pz", n, gen=lambda g, k: np.round(g.random(k) * 100, 1) * (g.random() < 0.7)))


def polygon(a, xyz):
    if Ctx.cur is not None:
        return Shape(*xyz)
    from shapely.geometry import Polygon
    return Polygon(list(zip(*[v for v in xyz if v is not None])))


def vertices(p):
    if isinstance(p, Shape):
        return p.x, p.y, p.z
    c = np.array(p.exterior.coords)[:-1]
    return c[:, 0], c[:, 1], c[:, 2] if c.shape[1] > 2 else None


@unit("polygon_local_coords", ["C19"], [CT + "__init__", CT + "polygon_to_local_coords", CT + "polygon_from_local_coords"])
class Polygons(Coordinates):
    cases = 60

    def inputs(self, V):
        a = super().inputs(V)
        m = V.int("vertices", 3, 8)
        a["ring"] = ring(V, m)
        return a

    def run(self, a):
        ct = self.transformer(a)
        p = polygon(a, a["ring"])
        q = ct.polygon_to_local_coords(p)
        back = ct.polygon_from_local_coords(q)
        x, y, z = a["ring"]
        return vertices(q), vertices(back), ct.to_local_coords(x, y, z)

    def post(self, P, S, a, r):
        local, back, pts = r
        for q, v in enumerate("xyz"):
            if a["ring"][q] is None:
                P.check("no third dimension stays none", back[q] is None and local[q] is None)
                continue
            self.near(P, S, f"converted like its vertices: {v}", local[q], pts[q], 1e-5)
            self.near(P, S, f"converted back: {v}", back[q], a["ring"][q], 1e-6 if q < 2 else 1e-3)


@unit("bounding_box", ["C19"], [FQ + "bounding_box_to_polygon", FQ + "polygon_to_bounding_box"], cases=60)
class BoundingBox(Unit):
    def inputs(self, V):
        g = lambda g: float(np.round(g.random() * 20 - 10, 2))
        x0, y0 = V.real("x_min", gen=g), V.real("y_min", gen=g)
        w = lambda q: V.real(q, gt=0, gen=lambda g: float(np.round(g.random() * 5 + 0.01, 2)))
        return {"x0": x0, "x1": x0 + w("width"), "y0": y0, "y1": y0 + w("height")}

    def run(self, a):
        symbolic()
        return get(M + ":polygon_to_bounding_box")(get(M + ":bounding_box_to_polygon")(a["x0"], a["x1"], a["y0"], a["y1"]))

    def post(self, P, S, a, r):
        for k, v in zip(("x0", "y0", "x1", "y1"), r):
            P.eq("the box again: " + k, v, a[k])


@unit("bounding_box_of_polygon", ["C19"], [FQ + "polygon_to_bounding_box"], cases=60)
class BoundingBoxOf(Unit):
    def inputs(self, V):
        m = V.int("vertices", 3, 8)
        return {"ring": ring(V, m)}

    def run(self, a):
        symbolic()
        return get(M + ":polygon_to_bounding_box")(polygon(a, a["ring"]))

    def post(self, P, S, a, r):
        x, y, _ = a["ring"]
        n = S.len(x)
        for v, lo, hi in ((x, r[0], r[2]), (y, r[1], r[3])):
            P.eq("smallest coordinate", lo, S.min(n, lambda i: S.at(v, i)))
            P.eq("largest coordinate", hi, S.max(n, lambda i: S.at(v, i)))
