"""C15: Moran's I and the transformation of b-values."""
import numpy as np

from .common import Unit, get, unit

FQ = "seismostats.analysis.b_significant:"
M = "analysis.b_significant"


def gen_matrix(g, n):
    k = int(g.integers(4))
    w = np.triu((g.random((n, n)) < 0.4).astype(float), 1)
    if k == 1:
        w = w.T.copy()
    elif k == 2:
        w = w + w.T
    elif k == 3:
        w = np.eye(n, k=1)
    if g.random() < 0.3:
        np.fill_diagonal(w, (g.random(n) < 0.5).astype(float))
    return w


class Morans(Unit):
    def values(self, V, lo=2):
        n = V.int("n", lo, 12)
        a = {"v": V.arr("v", n, nan=True), "n": n}
        a["mean"] = V.real("mean") if V.choice("mean given", [True, False]) else None
        return a

    def spec(self, P, S, a, r, w):
        """w(i, j): i < j are neighbours"""
        v = a["v"]
        n = S.len(v)
        ok = lambda i: S.not_(S.isnan(S.at(v, i)))
        one, zero = S.real(S.num(1)), S.real(S.num(0))
        cnt = S.sum(n, lambda i: S.ite(ok(i), one, zero))
        mean = a["mean"]
        if mean is None:
            mean = S.sum(n, lambda i: S.ite(ok(i), S.at(v, i), zero)) / cnt
        d = lambda i: S.ite(ok(i), S.at(v, i) - mean, zero)
        wt = lambda i, j: S.ite(S.and_(w(i, j), ok(i), ok(j)), one, zero)
        pairs = S.sum(n, lambda i: S.sum(n, lambda j: wt(i, j)))
        ac = S.sum(n, lambda j: S.sum(n, lambda i: d(i) * wt(i, j)) * d(j))
        P.eq("number of values", r[1], cnt)
        P.eq("number of neighbour pairs", r[2], pairs)
        P.eq("mean-adjusted autocorrelation", r[0],
             (cnt - 1) / pairs * ac / S.sum(n, lambda i: d(i) * d(i)))


@unit("est_morans_i", ["C15", "C13", "C14"], [FQ + "est_morans_i"], cases=300)
class Default(Morans):
    """neighbour is next"""

    def inputs(self, V):
        return self.values(V, 0)

    def raises(self, S, a):
        return [(S.len(a["v"]) < 2, ValueError, "at least two values")]

    def run(self, a):
        return get(M + ":est_morans_i")(a["v"], mean_v=a["mean"])

    def post(self, P, S, a, r):
        self.spec(P, S, a, r, lambda i, j: S.eq(j, i + 1))


def shape(S, a):
    """(square, entries are 0/1, upper, lower, symmetric), the diagonal not counted"""
    w, n = a["w"], a["n"]
    if S.symbolic:
        at = lambda i, j: w.fn(S.num(i).t, S.num(j).t)
    else:
        at = lambda i, j: w[i, j]
    off = lambda f: S.forall(n, lambda i: S.forall(n, lambda j: S.or_(S.eq(i, j), f(i, j))))
    z = lambda i, j: S.eq(at(i, j), 0)
    return (at, off(lambda i, j: S.or_(z(i, j), S.eq(at(i, j), 1))),
            off(lambda i, j: S.or_(i < j, z(i, j))), off(lambda i, j: S.or_(j < i, z(i, j))),
            off(lambda i, j: S.eq(at(i, j), at(j, i))))


@unit("est_morans_i_matrix", ["C15", "C13", "C14"], [FQ + "est_morans_i"], cases=400, symbolic=False,
      why_bounded="the pair sums over a general matrix and its transpose or triangle are not unified by the verifier")
class Matrix(Morans):
    def inputs(self, V):
        a = self.values(V)
        a["w"] = V.mat("w", a["n"], a["n"], gen=lambda g, n, m: self.gen(g, n))
        return a

    def gen(self, g, n):
        w = gen_matrix(g, n)
        if g.random() < 0.15:
            w[int(g.integers(n)), int(g.integers(n))] = [0.5, 2.0, -1.0, 1.0][int(g.integers(4))]
        return w if g.random() < 0.7 else w.astype(int) if np.all(w == w.astype(int)) else w

    def raises(self, S, a):
        at, bits, up, low, sym = shape(S, a)
        return [(S.not_(S.or_(up, low, sym)), ValueError, "neither triangular nor symmetric"),
                (S.not_(bits), ValueError, "entries other than 0 and 1")]

    def pre(self, S, a):
        w = a["w"]
        return [np.all(np.isin(np.diagonal(w), [0, 1])) or np.sum(np.diagonal(w)) != 0]

    def run(self, a):
        return get(M + ":est_morans_i")(a["v"], a["w"], a["mean"])

    def post(self, P, S, a, r):
        at = shape(S, a)[0]
        self.spec(P, S, a, r, lambda i, j: S.and_(i < j, S.or_(S.eq(at(i, j), 1), S.eq(at(j, i), 1))))


@unit("est_morans_i_square", ["C15"], [FQ + "est_morans_i"], symbolic=False, cases=20,
      why_bounded="shapes of matrices other than square are outside the symbolic arrays")
class Square(Unit):
    def inputs(self, V):
        n = V.int("n", 2, 6)
        m = V.int("m", 1, 6)
        return {"v": V.arr("v", n), "w": V.mat("w", n, m, gen=lambda g, n, m: np.eye(n, m)), "n": n, "m": m}

    def raises(self, S, a):
        return [(a["n"] != a["m"], ValueError, "not square")]

    def run(self, a):
        return get(M + ":est_morans_i")(a["v"], a["w"])

    def post(self, P, S, a, r):
        pass


@unit("transform_n", ["C15", "C14"], [FQ + "transform_n"], cases=200)
class Transform(Unit):
    def inputs(self, V):
        return {"b": V.real("b", gt=0), "true": V.real("true", gt=0), "n1": V.int("n1", 1, 50), "n2": V.int("n2", 1, 50)}

    def raises(self, S, a):
        return [(a["n1"] > a["n2"], ValueError, "n1 larger than n2")]

    def run(self, a):
        return get(M + ":transform_n")(a["b"], a["true"], a["n1"], a["n2"])

    def post(self, P, S, a, r):
        q = S.sqrt(S.real(a["n1"]) / S.real(a["n2"]))
        P.eq("transformed b-value", r, a["true"] / (1 - q * (1 - a["true"] / a["b"])))


@unit("transform_n_fixed", ["C15"], [FQ + "transform_n"], cases=100)
class Fixed(Unit):
    def inputs(self, V):
        return {"b": V.real("b", gt=0), "n1": V.int("n1", 1, 50), "n2": V.int("n2", 1, 50)}

    def pre(self, S, a):
        return [a["n1"] <= a["n2"]]

    def run(self, a):
        return get(M + ":transform_n")(a["b"], a["b"], a["n1"], a["n2"])

    def post(self, P, S, a, r):
        P.eq("the true b-value stays", r, a["b"])


@unit("transform_n_identity", ["C15"], [FQ + "transform_n"], cases=100)
class Identity(Unit):
    def inputs(self, V):
        return {"b": V.real("b", gt=0), "true": V.real("true", gt=0), "n": V.int("n", 1, 50)}

    def run(self, a):
        return get(M + ":transform_n")(a["b"], a["true"], a["n"], a["n"])

    def post(self, P, S, a, r):
        P.eq("the identity for n1 = n2", r, a["b"])


@unit("transform_n_arrays", ["C15", "C14"], [FQ + "transform_n"], cases=150)
class TransformArrays(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 8)
        return {"b": V.arr("b", n, lo=0.1, hi=3), "true": V.real("true", gt=0),
                "n1": V.arr("n1", n, kind="i", lo=1, hi=20), "n2": V.int("n2", 1, 30), "n": n}

    def pre(self, S, a):
        return [S.forall(a["n"], lambda i: S.at(a["b"], i) > 0), S.forall(a["n"], lambda i: S.at(a["n1"], i) >= 1)]

    def raises(self, S, a):
        return [(S.exists(a["n"], lambda i: S.at(a["n1"], i) > a["n2"]), ValueError, "an n1 larger than n2")]

    def run(self, a):
        return get(M + ":transform_n")(a["b"], a["true"], a["n1"], a["n2"])

    def post(self, P, S, a, r):
        q = lambda i: S.sqrt(S.real(S.at(a["n1"], i)) / S.real(a["n2"]))
        P.eq("elementwise", r, S.seq(a["n"], lambda i: a["true"] / (1 - q(i) * (1 - a["true"] / S.at(a["b"], i)))))
