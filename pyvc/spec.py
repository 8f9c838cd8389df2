"""Specification language, one text for both uses: SYM builds obligations, CON evaluates
the same specification on concrete values."""
import math

import numpy as np
import z3

from . import core
from .core import SArr, SBool, SNum, Unsupported, bool_term, s_and, s_implies, s_not, s_or, to_real


def _nt(n):
    """Int term of a length"""
    t = core.num(n).t
    return core.real_to_int(t) if t.sort() == z3.RealSort() else t


class Sym:
    symbolic = True

    def toint(self, x):
        x = core.num(x)
        return SNum(_nt(x), x.nan)

    # -- scalars
    def num(self, x): return core.num(x)
    def real(self, x):
        x = core.num(x)
        return SNum(to_real(x.t), x.nan)

    log = staticmethod(core.log)
    log10 = staticmethod(core.log10)
    exp = staticmethod(core.exp)
    sqrt = staticmethod(core.sqrt)
    floor = staticmethod(core.floor)
    ceil = staticmethod(core.ceil)
    sin = staticmethod(core.sin)
    cos = staticmethod(core.cos)
    maximum = staticmethod(core.smax)
    minimum = staticmethod(core.smin)
    nan = SNum(z3.RealVal(0), core.TRUE)

    def abs(self, x): return abs(core.num(x))
    def pow(self, a, b): return core._pow(core.num(a), core.num(b))

    def fn(self, name, *args):
        """uninterpreted real function of scalars"""
        xs = [core.num(a) for a in args]
        return SNum(core.uf(name, *[x.t for x in xs]), s_or(*[x.nan for x in xs]))

    def arctan2(self, a, b): return self.fn("arctan2", a, b)

    def isnan(self, x):
        if x is None:
            return SBool(core.FALSE)
        return SBool(core.num(x).nan)

    def ite(self, c, a, b):
        if isinstance(a, (SArr, np.ndarray, list)) or isinstance(b, SArr):
            return core.merge(bool_term(c), a, b)
        return core.ite(c, a, b)

    def implies(self, a, b): return SBool(s_implies(bool_term(a), bool_term(b)))
    def and_(self, *xs): return SBool(s_and(*[bool_term(x) for x in xs]))
    def or_(self, *xs): return SBool(s_or(*[bool_term(x) for x in xs]))
    def not_(self, x): return SBool(s_not(bool_term(x)))
    def iff(self, a, b): return SBool(bool_term(a) == bool_term(b))
    true = SBool(core.TRUE)
    false = SBool(core.FALSE)

    def is_true(self, x):
        """branch of the specification itself (forks the path)"""
        return bool(x)

    # -- arrays
    def arrlike(self, x):
        from .npshim import _seq
        return _seq(x)

    def len(self, a):
        a = self.arrlike(a)
        return SNum(a.n)

    def at(self, a, i):
        a = self.arrlike(a)
        v = a.at(z3.simplify(core.num(i).t))
        return v

    def seq(self, n, f, kind="f", is_list=False):
        return SArr(_nt(n), lambda i: f(SNum(i)), kind, is_list)

    def sum(self, n, f):
        def body(i):
            return to_real(core.num(f(SNum(i))).t)
        t = core.SUM(_nt(n), body)
        nan = core.EXISTS(_nt(n), lambda i: core.num(f(SNum(i))).nan)
        return SNum(t, nan)

    def count(self, n, f):
        return SNum(core.COUNT(_nt(n), lambda i: bool_term(f(SNum(i)))))

    def forall(self, n, f):
        return SBool(core.FORALL_T(_nt(n), lambda i: bool_term(f(SNum(i)))))

    def exists(self, n, f):
        return SBool(core.EXISTS(_nt(n), lambda i: bool_term(f(SNum(i)))))

    def min(self, n, f):
        return SNum(core.EXTREMUM(_nt(n), lambda i: core.num(f(SNum(i))).t, "min"))

    def max(self, n, f):
        return SNum(core.EXTREMUM(_nt(n), lambda i: core.num(f(SNum(i))).t, "max"))

    def first(self, lo, n, f):
        """the first lo <= i < n with f(i), n if there is none"""
        return SNum(core.FIRST(_nt(lo), _nt(n), lambda i: bool_term(f(SNum(i)))))

    def where(self, n, f):
        """ascending positions i < n with f(i)"""
        m = core.FILTER(_nt(n), lambda i: bool_term(f(SNum(i))))
        r = SArr(m.n, lambda j: SNum(m.decl(j)), "i")
        r.imap = m
        return r

    def select(self, a, idx):
        """a at the positions idx"""
        a, idx = self.arrlike(a), self.arrlike(idx)
        f, g = a.snap(), idx.snap()
        return SArr(idx.n, lambda j: f(core.num(g(j)).t), a.kind)

    def argsort(self, a):
        a = self.arrlike(a)
        f = a.snap()
        m = core.ARGSORT(a.n, lambda i: core.num(f(i)).t)
        r = SArr(a.n, lambda j: SNum(m.decl(j)), "i")
        r.imap = m
        return r

    # -- equality
    def eq_parts(self, a, b):
        """[(suffix, z3 Bool)] whose conjunction says a equals b"""
        if a is None or b is None:
            if hasattr(a, "none") or hasattr(b, "none"):
                pass
            return [("", z3.BoolVal(a is None and b is None))]
        if isinstance(a, (tuple,)) or isinstance(b, (tuple,)):
            if not (isinstance(a, (tuple, list)) and isinstance(b, (tuple, list))) or len(a) != len(b):
                return [(" (shape)", core.FALSE)]
            return [(f"[{i}]{s}", g) for i, (x, y) in enumerate(zip(a, b)) for s, g in self.eq_parts(x, y)]
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
                return [(" (keys)", core.FALSE)]
            return [(f"[{k}]{s}", g) for k in b for s, g in self.eq_parts(a[k], b[k])]
        if isinstance(a, str) or isinstance(b, str):
            return [("", z3.BoolVal(isinstance(a, str) and isinstance(b, str) and a == b))]
        from .npshim import SMat
        if isinstance(a, SMat) or isinstance(b, SMat):
            if not (isinstance(a, SMat) and isinstance(b, SMat)):
                return [(" (shape)", core.FALSE)]
            return [("", s_and(a.r == b.r, a.c == b.c, core.FORALL_T(
                a.r, lambda i: core.FORALL_T(a.c, lambda j: self._scalar_eq(a.fn(i, j), b.fn(i, j))))))]
        if core.is_scalar(a) and core.is_scalar(b):
            return [("", self._scalar_eq(a, b))]
        if core.is_scalar(a) != core.is_scalar(b):
            return [(" (a scalar against an array)", core.FALSE)]
        a, b = self.arrlike(a), self.arrlike(b)
        fa, fb = a.snap(), b.snap()

        def el(i):
            ps = self.eq_parts(fa(i), fb(i))
            return s_and(*[g for _, g in ps])
        return [(".length", a.n == b.n),
                ("[i]", s_implies(a.n == b.n, core.arbitrary(a.n, el)))]

    def _scalar_eq(self, a, b):
        if isinstance(a, SBool) and isinstance(b, (SBool, bool, np.bool_)) or \
                isinstance(b, SBool) and isinstance(a, (bool, np.bool_)):
            return bool_term(a) == bool_term(b)
        x, y = core.num(a), core.num(b)
        p, q = core.harmonize(x.t, y.t)
        return s_and(x.nan == y.nan if not (z3.is_false(x.nan) and z3.is_false(y.nan)) else core.TRUE,
                     s_or(x.nan, p == q))

    def eq(self, a, b):
        """closed equality (usable as a hypothesis or under a binder)"""
        if core.is_scalar(a) and core.is_scalar(b):
            return SBool(self._scalar_eq(a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return SBool(s_and(*[g for _, g in self.eq_parts(a, b)]))
        if core.is_scalar(a) != core.is_scalar(b):
            return SBool(core.FALSE)
        a, b = self.arrlike(a), self.arrlike(b)
        fa, fb = a.snap(), b.snap()
        return SBool(s_and(a.n == b.n, core.FORALL_T(a.n, lambda i: self.eq(fa(i), fb(i)).t)))

    def functional(self, name, arrays, scalars=()):
        return core.FUNCTIONAL(name, [self.arrlike(a) for a in arrays], [core.num(s) for s in scalars])


class Con:
    symbolic = False
    rtol = 1e-7
    atol = 1e-9
    nan = np.nan
    true = True
    false = False

    def num(self, x): return x
    def real(self, x): return np.float64(x)
    def toint(self, x): return int(round(float(x)))

    @staticmethod
    def _f(x): return np.float64(x)

    def log(self, x): return np.log(self._f(x))
    def pow(self, a, b): return np.float64(a) ** np.float64(b)
    def log10(self, x): return np.log10(self._f(x))
    def exp(self, x): return np.exp(self._f(x))
    def sqrt(self, x): return np.sqrt(self._f(x))
    def floor(self, x): return np.floor(x)
    def ceil(self, x): return np.ceil(x)
    def sin(self, x): return np.sin(x)
    def cos(self, x): return np.cos(x)
    def arctan2(self, a, b): return np.arctan2(a, b)
    def maximum(self, a, b): return np.maximum(a, b)
    def minimum(self, a, b): return np.minimum(a, b)
    def abs(self, x): return abs(x)

    def isnan(self, x):
        if x is None:
            return False
        return bool(np.isnan(x))

    def ite(self, c, a, b): return a if c else b
    def implies(self, a, b): return (not a) or bool(b)
    def and_(self, *xs): return all(bool(x) for x in xs)
    def or_(self, *xs): return any(bool(x) for x in xs)
    def not_(self, x): return not x
    def iff(self, a, b): return bool(a) == bool(b)
    def is_true(self, x): return bool(x)

    def len(self, a): return len(a)

    def at(self, a, i):
        if hasattr(a, "iloc"):
            return a.iloc[int(i)]
        return a[int(i)]

    def seq(self, n, f, kind="f", is_list=False):
        xs = [f(i) for i in range(int(n))]
        if is_list:
            return xs
        if kind == "o":
            return xs
        return np.array(xs, dtype={"f": float, "i": int, "b": bool}[kind])

    def count(self, n, f): return sum(1 for i in range(int(n)) if f(i))
    def forall(self, n, f): return all(bool(f(i)) for i in range(int(n)))
    def exists(self, n, f): return any(bool(f(i)) for i in range(int(n)))
    def min(self, n, f): return min(f(i) for i in range(int(n)))
    def max(self, n, f): return max(f(i) for i in range(int(n)))

    def first(self, lo, n, f): return next((i for i in range(int(lo), int(n)) if f(i)), int(n))

    def where(self, n, f): return np.array([i for i in range(int(n)) if f(i)], dtype=int)

    def select(self, a, idx):
        a = np.asarray(a)
        return a[np.asarray(idx, dtype=int)]

    def argsort(self, a): return np.argsort(np.asarray(a), kind="stable")

    def eq(self, a, b, rtol=None, atol=None):
        rtol = self.rtol if rtol is None else rtol
        atol = self.atol if atol is None else atol
        if a is None or b is None:
            return a is None and b is None
        if isinstance(a, tuple) or isinstance(b, tuple):
            return isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b) and \
                all(self.eq(x, y, rtol, atol) for x, y in zip(a, b))
        if isinstance(a, dict) or isinstance(b, dict):
            return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and \
                all(self.eq(a[k], b[k], rtol, atol) for k in b)
        if isinstance(a, str) or isinstance(b, str):
            return isinstance(a, str) and isinstance(b, str) and a == b
        sa, sb = np.ndim(a) if not hasattr(a, "iloc") else 1, np.ndim(b) if not hasattr(b, "iloc") else 1
        if isinstance(a, list) and any(isinstance(x, (list, np.ndarray)) for x in a) or \
                isinstance(b, list) and any(isinstance(x, (list, np.ndarray)) for x in b):
            return len(a) == len(b) and all(self.eq(x, y, rtol, atol) for x, y in zip(a, b))
        if sa == 0 and sb == 0:
            return self._seq(a, b, rtol, atol)
        if sa != sb:
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.size == 0:
            return True
        if a.dtype.kind in "fiub" and b.dtype.kind in "fiub":
            return bool(np.allclose(a.astype(float), b.astype(float), rtol=rtol, atol=atol, equal_nan=True))
        return all(self._seq(x, y, rtol, atol) for x, y in zip(a.ravel(), b.ravel()))

    def _seq(self, x, y, rtol, atol):
        try:
            if isinstance(x, (np.datetime64, np.timedelta64)) or isinstance(y, (np.datetime64, np.timedelta64)):
                return bool(x == y)
            fx, fy = float(x), float(y)
        except (TypeError, ValueError):
            return bool(x == y) or (x is y)
        if math.isnan(fx) or math.isnan(fy):
            return math.isnan(fx) and math.isnan(fy)
        if math.isinf(fx) or math.isinf(fy):
            return fx == fy
        return abs(fx - fy) <= atol + rtol * abs(fy)


def _consum(self, n, f):
    xs = [float(f(i)) for i in range(int(n))]
    if all(math.isfinite(x) for x in xs):
        return np.float64(math.fsum(xs))
    return np.float64(np.sum(xs))


Con.sum = _consum
SYM = Sym()
CON = Con()
