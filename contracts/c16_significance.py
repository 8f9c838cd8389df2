"""C16: the autocorrelation statistics over all offsets, over the contracts of the functions it is built on."""
import z3

from pyvc import npshim
from pyvc.core import Ctx, SArr, SBool, SNum, num
from pyvc.runtime import State
from pyvc.spec import CON, SYM
from .c09_ks import replaced, require
from .c16_partition import FQ, M
from .common import Unit, get, unit


class Series:
    """what is known of the pieces of one offset: their values and counts, and Moran's I of the values"""

    def __init__(self, n):
        c = Ctx.cur
        Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
        self.V, self.Vn = c.func("piece_value", Z, Z, R), c.func("piece_nan", Z, Z, B)
        self.N = c.func("piece_count", Z, Z, Z)
        self.q = c.func("pieces", Z, Z)
        self.I, self.In = c.func("morans", Z, R), c.func("morans_nan", Z, B)
        self.C, self.P = c.func("values", Z, R), c.func("pairs", Z, R)
        self.m = c.func("multiple", Z, Z)
        # multiple(j) stands for j * n: the solvers are given what they need to know of the product
        n = num(n).t
        i, j = c.int("i"), c.int("j")
        prod = lambda f: z3.And(z3.Implies(i < j, f(j) >= f(i) + n), z3.Implies(j == i + 1, f(j) == f(i) + n), f(z3.IntVal(0)) == 0)
        require("multiples of n_m are n_m apart", SBool(prod(lambda k: k * n)))
        m = self.m
        c.fact(lambda i, j: z3.And(z3.Implies(i < j, m(j) >= m(i) + n), z3.Implies(j == i + 1, m(j) == m(i) + n)),
               2, {self.m.name()}, "multiples")
        c.assume(m(z3.IntVal(0)) == 0)

    def times(self, j):
        return SNum(self.m(num(j).t))

    def value(self, o, j):
        return SNum(self.V(num(o).t, num(j).t), self.Vn(num(o).t, num(j).t))

    def count(self, o, j):
        return SNum(self.N(num(o).t, num(j).t))

    def pieces(self, o):
        return SNum(self.q(num(o).t))

    def stats(self, o):
        o = num(o).t
        return SNum(self.I(o), self.In(o)), SNum(self.C(o)), SNum(self.P(o))


def few(S, a, o):
    """less than three pieces of this offset have enough events"""
    s = a["series"]
    return S.count(s.pieces(o), lambda j: s.count(o, j) >= a["min"]) < 3


def row(S, a, o):
    """autocorrelation, number of values and number of pairs of an offset"""
    return [S.ite(few(S, a, o), S.nan, q) for q in a["series"].stats(o)]


def _loop(S, k, L):
    a = _loop.a
    a["k"] = k
    zero = S.real(S.num(0))
    return State({v: S.seq(a["nm"], lambda i, c=c: S.ite(i < k, row(S, a, i)[c], zero))
                  for c, v in enumerate(("ac_1D", "n", "n_p"))})


def have(name, t):
    """an intermediate step: proved, then used"""
    require(name, t)
    Ctx.cur.assume(t.t)


def have_all(name, n, f, trigger="multiple!0"):
    require(name, SYM.forall(n, f))
    Ctx.cur.fact(lambda j: z3.Implies(z3.And(j >= 0, j < num(n).t), f(SNum(j)).t), 1, {trigger}, name)


def opaque(a, x):
    """the events used (their magnitudes, times, completeness) as functions of which nothing is known"""
    i = Ctx.cur.int("any")
    v = num(x.at(i))
    for d in a["opaque"]:
        w = num(a[d].at(i))
        if z3.simplify(v.t == w.t, som=True).eq(z3.BoolVal(True)) and z3.simplify(v.nan == w.nan).eq(z3.BoolVal(True)):
            return d
    return None


def _cut(S, a):
    def cut_constant_idx(values, n, offset=0):
        """contract proved by cut_constant_idx"""
        o, L = a["k"], S.len(a["ev"])
        have("each offset is used", S.eq(offset, o))
        require("the pieces have n_m events", S.eq(n, a["nm"]))
        require("the complete events are cut, in their order", S.eq(values, a["mags"]))
        first = S.ite(S.eq(o, 0), n, o)
        K = SNum(Ctx.cur.int("cuts"))
        mul = a["series"].times
        at = lambda i: first + mul(i)
        Ctx.cur.assume(S.and_(K >= 0, S.or_(S.eq(K, 0), at(K - 1) < L), at(K) >= L).t)
        a["K"] = K
        idx = S.seq(K, at, kind="i")
        # the number of full pieces of this offset (its existence is an instance of Euclidean division)
        q = a["series"].pieces(o)
        Ctx.cur.assume(S.and_(q >= 0, o + mul(q) <= L, L < o + mul(q + 1)).t)
        c = Ctx.cur
        st, ln = (c.func(f, z3.IntSort(), z3.IntSort()) for f in ("start", "size"))
        start, size = lambda j: SNum(st(num(j).t)), lambda j: SNum(ln(num(j).t))
        end = lambda j: S.ite(S.eq(j, K), L, at(j))
        c.fact(lambda j: z3.Implies(z3.And(j >= 0, j <= K.t), S.and_(
            S.eq(start(SNum(j)), S.ite(S.eq(SNum(j), 0), 0, at(SNum(j) - 1))),
            S.eq(size(SNum(j)), end(SNum(j)) - start(SNum(j)))).t), 1, {st.name(), ln.name()}, "numpy.array_split")

        def pieces_of(x):
            """numpy.array_split at the cut positions"""
            require("sequences of one length are cut", S.eq(S.len(x), L))
            which = opaque(a, x)
            f = x.snap() if which is None else lambda k: SNum(a["opaque"][which](k))

            def piece(j):
                r = SArr(ln(j), lambda i: f(z3.simplify(st(j) + i)), x.kind)
                if which == "mcs":
                    r.span = (st(j), ln(j))
                return r
            return SArr(z3.simplify(K.t + 1), piece, "o", True)
        idx.pieces_of = pieces_of
        pieces = pieces_of(values)
        c.note_external("numpy.array_split at cut positions: x[0:c0], x[c0:c1], ..., x[ck:]")
        have("there is a cut", K > 0)
        have("the first piece ends at the first cut", S.eq(size(0), first))
        have("the first piece", S.eq(start(0), 0))
        have_all("an inner piece has n_m events", K, lambda j: S.or_(S.eq(j, 0), S.eq(size(j), n)), ln.name())
        have_all("the pieces follow each other", K + 1, lambda j: S.eq(start(j), S.ite(
            S.eq(j, 0), 0, S.ite(S.eq(o, 0), mul(j), o + mul(j - 1)))), st.name())
        have_all("no piece is empty", K + 1, lambda j: size(j) > 0, ln.name())
        have("the last piece ends with the sequence", S.eq(size(K), L - start(K)))
        have("the last piece has at most n_m events", S.and_(size(K) > 0, size(K) <= n))
        return idx, pieces
    return cut_constant_idx


def _values(S, a):
    def values_from_partitioning(list_magnitudes, list_times, list_mc, delta_m, method=None, **kw):
        """contract proved by values_from_partitioning"""
        o, n, s = a["k"], a["nm"], a["series"]
        q = s.pieces(o)
        event = lambda d, i: SNum(a["opaque"][d](num(i).t))
        have("the full pieces of this offset", S.eq(S.len(list_magnitudes), q))
        require("their times", S.eq(S.len(list_times), q))
        require("their completeness", S.eq(S.len(list_mc), q))
        require("a piece has n_m events", S.forall(q, lambda j: S.eq(S.len(list_magnitudes.at(j.t)), n)))
        require("a piece has n_m times", S.forall(q, lambda j: S.eq(S.len(list_times.at(j.t)), n)))
        require("the events of a piece", S.forall(q, lambda j: S.forall(n, lambda i: S.eq(
            S.at(list_magnitudes.at(j.t), i), event("mags", o + s.times(j) + i)))))
        require("the times of a piece", S.forall(q, lambda j: S.forall(n, lambda i: S.eq(
            S.at(list_times.at(j.t), i), event("times", o + s.times(j) + i)))))
        require("the completeness of a piece is the highest of its events", S.forall(q, lambda j: S.eq(
            S.at(list_mc, j), SNum(a["highest"](num(o + s.times(j)).t, n.t)))))
        require("delta_m is passed on", S.eq(delta_m, a["dm"]))
        require("the method is passed on", method is a["method"])
        require("the keyword arguments are passed on", set(kw) == {"extra"} and S.eq(kw["extra"], a["extra"]))
        return (S.seq(q, lambda j: s.value(o, j)), S.seq(q, lambda j: S.nan), S.seq(q, lambda j: s.count(o, j), kind="i"))
    return values_from_partitioning


def _morans(S, a):
    def est_morans_i(values, w=None, mean_v=None):
        """contract proved by est_morans_i"""
        o, s = a["k"], a["series"]
        require("neighbours are consecutive pieces, around their own mean", w is None and mean_v is None)
        require("the values of the pieces with enough events", S.eq(values, S.seq(s.pieces(o), lambda j: S.ite(
            s.count(o, j) < a["min"], S.nan, s.value(o, j)))))
        require("at least two values", S.len(values) >= 2)
        return s.stats(o)
    return est_morans_i


def cdf(S, loc, scale, x):
    return S.fn("normal cdf", loc, scale, x)


def _norm(S):
    class norm:
        def __init__(self, loc=0, scale=1):
            self.loc, self.scale = loc, scale

        def cdf(self, x):
            Ctx.cur.note_external("scipy.stats.norm: cdf of location, scale and value, NaN for NaN")
            return cdf(S, self.loc, self.scale, x)
    return norm


def _max(S, a):
    real = npshim.BUILTINS["max"]

    def highest(*x, **kw):
        """max of the completeness of consecutive events, not none of them"""
        span = getattr(x[0], "span", None)
        if span is None or len(x) > 1 or kw:
            return real(*x, **kw)
        return SNum(a["highest"](*span))
    return highest


@unit("b_significant_1D_procedure", ["C16", "C13", "C14"], [FQ + "b_significant_1D"], cases=0, budget=60.0)
class Procedure(Unit):
    """every offset is cut into full pieces, none is left out, and the statistics are the means over the offsets"""
    loops = {("b_significant_1D", 0): _loop}
    split = {"variant": 6}

    def inputs(self, V):
        n = V.int("n", 0)
        is_list, xv, mc, cons = V.choice("variant", [("list", "", "one", True), ("", "", "array", False), ("", "", "list", True),
                                                     ("", "x", "one", False), ("list", "x", "array", True), ("", "x", "list", False)])
        a = {"x": V.arr("x", n, is_list=bool(is_list)), "n": n, "t": V.arr("t", n), "cons": cons}
        a["xv"] = V.arr("xv", n) if xv else None
        a["mc"] = V.real("mc") if mc == "one" else V.arr("mcs", n, is_list=mc == "list")
        a["dm"], a["nm"], a["min"] = V.real("dm", lo=0), V.int("n_m", 1), V.int("min_num")
        a["extra"], a["method"] = V.real("extra"), object()
        return a

    def pre(self, S, a):
        if a["xv"] is None:
            return []
        xv, n = a["xv"], a["n"]
        return [S.forall(n, lambda i: S.forall(n, lambda j: S.implies(S.at(xv, i) == S.at(xv, j), S.eq(i, j))))]

    def raises(self, S, a):
        return [(a["nm"] < a["min"], ValueError, "n_m smaller than min_num")]

    def run(self, a):
        S = SYM
        mc = (lambda i: a["mc"]) if isinstance(a["mc"], SNum) else (lambda i: S.at(a["mc"], i))
        order = (lambda i: i) if a["xv"] is None else (lambda i, o=S.argsort(a["xv"]): S.at(o, i))
        x, t = (lambda i, d=d: S.at(d, order(i)) for d in (a["x"], a["t"]))
        ev = S.where(a["n"], lambda i: x(i) >= mc(order(i)) - a["dm"] / 2)
        pick = lambda f: S.seq(S.len(ev), lambda i: f(S.at(ev, i)))
        a.update(ev=ev, mags=pick(x), times=pick(t), mcs=pick(lambda i: mc(order(i))), series=Series(a["nm"]),
                 opaque={d: Ctx.cur.func("event " + d, z3.IntSort(), z3.RealSort()) for d in ("mags", "times", "mcs")},
                 highest=Ctx.cur.func("highest", z3.IntSort(), z3.IntSort(), z3.RealSort()))
        _loop.a = a
        names = {"cut_constant_idx": _cut(S, a), "values_from_partitioning": _values(S, a),
                 "est_morans_i": _morans(S, a), "norm": _norm(S), "pyvc__b_max": _max(S, a)}
        with replaced(M, **names):
            return get(M + ":b_significant_1D")(a["x"], a["mc"], a["dm"], a["t"], a["nm"], min_num=a["min"],
                                                method=a["method"], x_variable=a["xv"], conservative=a["cons"],
                                                extra=a["extra"])

    def post(self, P, S, a, r):
        n = a["nm"]
        if S.is_true(S.len(a["ev"]) < 3 * n):
            P.check("NaN for less than three pieces", S.and_(*[S.isnan(q) for q in r]))
            return
        # numpy.nanmean: the mean of what is not NaN, NaN without any
        mean = lambda c: npshim.NP["nanmean"](S.seq(n, lambda i: row(S, a, i)[c]))
        pairs = mean(2)
        if not S.is_true(pairs > 2):
            P.check("NaN for two pairs or less", S.and_(*[S.isnan(q) for q in r]))
            return
        P.eq("mean autocorrelation over all offsets", r[1], mean(0))
        mu = -1 / mean(1)
        std = (pairs - 2) / (pairs * S.sqrt(pairs))
        std = std if a["cons"] else std * 0.81
        P.eq("its expected mean", r[2], mu)
        P.eq("its standard deviation", r[3], std)
        P.eq("p-value of the normal distribution with that mean and standard deviation", r[0], 1 - cdf(S, r[2], r[3], r[1]))
