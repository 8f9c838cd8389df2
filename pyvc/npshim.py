"""Symbolic numpy, python builtins and warnings, injected into the real modules.

Every function falls through to the real one when no argument is symbolic.
"""
import builtins
import math
import types

import numpy as np
import z3

from . import core
from .core import (SArr, SBool, SNum, Unsupported, bool_term, cur, deep_symbolic, elementwise,
                   ite, is_scalar, lift, num, s_and, s_ite, s_not, s_or, to_real)


class SMat:
    """Two-dimensional symbolic array."""
    __array_ufunc__ = None
    _pyvc_symbolic = True
    ndim = 2

    def __init__(self, r, c, fn, kind="f", label=None):
        self.r, self.c, self.fn, self.kind, self.label = r, c, fn, kind, label

    @property
    def shape(self): return (SNum(self.r), SNum(self.c))

    @property
    def T(self):
        f = self.fn
        return SMat(self.c, self.r, lambda i, j: f(j, i), self.kind)

    def copy(self): return SMat(self.r, self.c, self.fn, self.kind)

    def diagonal(self):
        f = self.fn
        return SArr(self.r, lambda i: f(i, i), self.kind)

    def _store(self, fn):
        if self.label is not None:
            cur().writes.append(self.label)
        self.fn = fn

    def __getitem__(self, k):
        f = self.fn
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            full = slice(None)
            if a == full and isinstance(b, (int, SNum)):
                j = SArr(self.c, lambda i: SNum(i), "i")._index(b)
                return SArr(self.r, lambda i: f(i, j), self.kind)
            if isinstance(a, (int, SNum)) and b == full:
                i0 = SArr(self.r, lambda i: SNum(i), "i")._index(a)
                return SArr(self.c, lambda j: f(i0, j), self.kind)
            if is_scalar(a) and is_scalar(b):
                i0 = SArr(self.r, lambda i: SNum(i), "i")._index(a)
                j0 = SArr(self.c, lambda i: SNum(i), "i")._index(b)
                return f(i0, j0)
        if is_scalar(k):
            return self[k, slice(None)]
        raise Unsupported("matrix index")

    def __setitem__(self, k, v):
        old = self.fn
        if isinstance(k, tuple) and len(k) == 2 and is_scalar(v):
            a, b = k
            v = num(v)
            if isinstance(a, SArr) and a.kind == "b" and b == slice(None):
                m = a.snap()
                self._store(lambda i, j: ite(m(i), v, old(i, j)))
                return
            if isinstance(b, SArr) and b.kind == "b" and a == slice(None):
                m = b.snap()
                self._store(lambda i, j: ite(m(j), v, old(i, j)))
                return
        raise Unsupported("matrix assignment")

    def map(self, fn, kind=None):
        f = self.fn
        return SMat(self.r, self.c, lambda i, j: fn(f(i, j)), kind or self.kind)

    def _bin(self, o, fn, kind=None, swap=False):
        f = self.fn
        if isinstance(o, SMat):
            g = o.fn
            if not cur().decide(s_and(self.r == o.r, self.c == o.c), "equal shapes"):
                raise ValueError("operands could not be broadcast together")
            return SMat(self.r, self.c, lambda i, j: fn(f(i, j), g(i, j)), kind or self.kind)
        if is_scalar(o):
            return SMat(self.r, self.c, lambda i, j: fn(o, f(i, j)) if swap else fn(f(i, j), o), kind or self.kind)
        raise Unsupported("matrix operand")

    def __eq__(self, o): return self._bin(o, lambda a, b: num(a) == num(b), "b")
    def __ne__(self, o): return self._bin(o, lambda a, b: num(a) != num(b), "b")
    def __mul__(self, o): return self._bin(o, lambda a, b: num(a) * num(b))
    __rmul__ = __mul__
    def __add__(self, o): return self._bin(o, lambda a, b: num(a) + num(b))
    __radd__ = __add__
    __hash__ = object.__hash__

    def vecmul_left(self, v):
        """v @ self"""
        f, g = v.snap(), self.fn
        if not cur().decide(v.n == self.r, "matmul shapes"):
            raise ValueError("matmul: mismatch")
        return SArr(self.c, lambda j: SNum(core.SUM(self.r, lambda i: to_real(num(f(i)).t) * to_real(num(g(i, j)).t)),
                                           core.EXISTS(self.r, lambda i: s_or(num(f(i)).nan, num(g(i, j)).nan))))

    def __matmul__(self, v):
        if isinstance(v, SArr):
            return self.T.vecmul_left(v)
        raise Unsupported("matrix product")

    def sum(self, axis=None):
        f = self.fn
        if axis is None:
            t = core.SUM(self.r, lambda i: core.SUM(self.c, lambda j: to_real(num(f(i, j)).t)))
            nan = core.EXISTS(self.r, lambda i: core.EXISTS(self.c, lambda j: num(f(i, j)).nan))
            return SNum(t, nan)
        raise Unsupported("axis sum")

    def all(self, axis=None):
        f = self.fn
        if axis is None:
            return SBool(core.FORALL_T(self.r, lambda i: core.FORALL_T(self.c, lambda j: bool_term(f(i, j)))))
        raise Unsupported("axis all")

    def any(self, axis=None):
        f = self.fn
        if axis is None:
            return SBool(core.EXISTS(self.r, lambda i: core.EXISTS(self.c, lambda j: bool_term(f(i, j)))))
        raise Unsupported("axis any")

    def __repr__(self): return "<symbolic matrix>"


def _matmul(self, o):
    if isinstance(o, SMat):
        return o.vecmul_left(self)
    if isinstance(o, SArr):
        f, g = self.snap(), o.snap()
        if not self.n.eq(o.n) and not cur().decide(self.n == o.n, "matmul shapes"):
            raise ValueError("matmul: mismatch")
        return SNum(core.SUM(self.n, lambda i: to_real(num(f(i)).t) * to_real(num(g(i)).t)),
                    core.EXISTS(self.n, lambda i: s_or(num(f(i)).nan, num(g(i)).nan)))
    return NotImplemented


SArr.__matmul__ = _matmul


def _seq(x):
    if isinstance(x, (SArr, SMat)):
        return x
    if is_scalar(x):
        return x
    if hasattr(x, "_pyvc_array"):
        return x._pyvc_array()
    return lift(x)


def _map1(fn, kind="f"):
    def f(x, *a, **k):
        x = _seq(x)
        if k.get("where") is not None or k.get("out") is not None or a:
            raise Unsupported("ufunc options")
        if isinstance(x, SArr):
            return elementwise(fn, x, kind=kind if kind else x.kind)
        if isinstance(x, SMat):
            return x.map(fn, kind)
        return fn(x)
    return f


def _map2(fn, kind=None):
    def f(a, b):
        a, b = _seq(a), _seq(b)
        if isinstance(a, SMat) or isinstance(b, SMat):
            raise Unsupported("matrix ufunc")
        if isinstance(a, SArr) or isinstance(b, SArr):
            return elementwise(fn, a, b, kind)
        return fn(a, b)
    return f


class Shim:
    """Symbolic namespace over a real module."""

    def __init__(self, real, table):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table

    def __getattr__(self, name):
        t = self._table.get(name)
        real = getattr(self._real, name)
        if t is None:
            if isinstance(real, type) or isinstance(real, types.ModuleType) or not callable(real):
                return real

            def guarded(*a, **k):
                if deep_symbolic(a) or deep_symbolic(k):
                    raise Unsupported(f"{self._real.__name__}.{name}")
                return real(*a, **k)
            return guarded
        if getattr(t, "_always", False):
            return t

        def both(*a, **k):
            if deep_symbolic(a) or deep_symbolic(k):
                return t(*a, **k)
            if name in EXACT and core.Ctx.cur is not None and len(a) == 1 and not k and \
                    isinstance(a[0], (int, float)) and not isinstance(a[0], bool) and a[0] > 0:
                return t(num(a[0]))
            return real(*a, **k)
        both.__name__ = name
        return both


NP = {}
# on literal arguments these stay mathematical (no floating-point value)
EXACT = {"log", "log10", "exp", "sqrt", "log2", "log1p", "expm1"}


def npf(name=None, always=False):
    def deco(f):
        f._always = always
        NP[name or f.__name__] = f
        return f
    return deco


@npf("array")
def np_array(x, dtype=None, copy=True, **k):
    x = _seq(x)
    if isinstance(x, SArr):
        r = x.copy()
        r.is_list = False
        if dtype is not None:
            r = r.astype(dtype)
        return r
    if isinstance(x, SMat):
        return x.copy()
    if isinstance(x, SBool):
        return x
    return num(x)


@npf("asarray")
def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and not x.is_list:
        return x if dtype is None else x.astype(dtype)
    if isinstance(x, SMat):
        return x
    return np_array(x, dtype)


NP["asanyarray"] = np_asarray
NP["ascontiguousarray"] = np_asarray


@npf("copy")
def np_copy(x): return np_array(x)


for _nm, _fn in dict(floor=core.floor, ceil=core.ceil, log=core.log, log10=core.log10, exp=core.exp,
                     sqrt=core.sqrt, sin=core.sin, cos=core.cos, tan=core.tan, arctan=core.arctan,
                     arcsin=core.arcsin).items():
    NP[_nm] = _map1(_fn)
NP["abs"] = NP["absolute"] = NP["fabs"] = _map1(lambda x: abs(num(x)), None)
NP["square"] = _map1(lambda x: num(x) * num(x), None)
NP["negative"] = _map1(lambda x: -num(x), None)
NP["log1p"] = _map1(lambda x: core.log(num(x) + 1))
NP["expm1"] = _map1(lambda x: core.exp(x) - 1)
NP["log2"] = _map1(lambda x: core.log(x) / core.log(2))
NP["deg2rad"] = NP["radians"] = _map1(lambda x: num(x) * (math.pi / 180))
NP["isnan"] = _map1(lambda x: SBool(num(x).nan), "b")
NP["isinf"] = _map1(lambda x: (num(x), SBool(core.FALSE))[1], "b")
NP["isfinite"] = _map1(lambda x: SBool(s_not(num(x).nan)), "b")
NP["logical_not"] = _map1(lambda x: SBool(s_not(bool_term(x))), "b")
NP["rint"] = NP["round"] = None
del NP["rint"], NP["round"]
NP["add"] = _map2(lambda a, b: num(a) + num(b))
NP["subtract"] = _map2(lambda a, b: num(a) - num(b))
NP["multiply"] = _map2(lambda a, b: num(a) * num(b))
NP["divide"] = NP["true_divide"] = _map2(lambda a, b: num(a) / num(b), "f")
NP["power"] = _map2(lambda a, b: num(a) ** num(b), "f")
NP["maximum"] = _map2(core.smax)
NP["minimum"] = _map2(core.smin)
NP["logical_and"] = _map2(lambda a, b: SBool(s_and(bool_term(a), bool_term(b))), "b")
NP["logical_or"] = _map2(lambda a, b: SBool(s_or(bool_term(a), bool_term(b))), "b")
NP["greater"] = _map2(lambda a, b: num(a) > num(b), "b")
NP["greater_equal"] = _map2(lambda a, b: num(a) >= num(b), "b")
NP["less"] = _map2(lambda a, b: num(a) < num(b), "b")
NP["less_equal"] = _map2(lambda a, b: num(a) <= num(b), "b")
NP["equal"] = _map2(lambda a, b: num(a) == num(b), "b")
NP["not_equal"] = _map2(lambda a, b: num(a) != num(b), "b")
NP["mod"] = _map2(lambda a, b: num(a) % num(b))
NP["floor_divide"] = _map2(lambda a, b: num(a) // num(b))
NP["arctan2"] = _map2(lambda a, b: SNum(core.uf("arctan2", num(a).t, num(b).t), s_or(num(a).nan, num(b).nan)))


@npf("float64")
def np_float64(x):
    x = num(x)
    return SNum(to_real(x.t), x.nan)


np_float64._always = False


@npf()
def zeros(n, dtype=float):
    return _const_arr(n, 0, dtype)


@npf()
def ones(n, dtype=float):
    return _const_arr(n, 1, dtype)


@npf()
def full(n, v, dtype=None):
    if dtype is None:
        dtype = bool if isinstance(v, (bool, SBool)) else (int if isinstance(v, int) or (isinstance(v, SNum) and v.is_int) else float)
    return _const_arr(n, v, dtype)


@npf()
def empty(n, dtype=float):
    return core.sym_array("empty", _len_term(n), "i" if dtype in (int, np.int64) else "f")


@npf()
def zeros_like(x, dtype=None):
    x = _seq(x)
    return _const_arr(SNum(x.n), 0, dtype or {"f": float, "i": int, "b": bool}[x.kind])


@npf()
def ones_like(x, dtype=None):
    x = _seq(x)
    return _const_arr(SNum(x.n), 1, dtype or {"f": float, "i": int, "b": bool}[x.kind])


@npf()
def full_like(x, v, dtype=None):
    x = _seq(x)
    return _const_arr(SNum(x.n), v, dtype or {"f": float, "i": int, "b": bool}[x.kind])


@npf()
def empty_like(x, dtype=None):
    x = _seq(x)
    return core.sym_array("empty", x.n, x.kind)


def _len_term(n):
    if isinstance(n, tuple):
        if len(n) != 1:
            raise Unsupported("multi-dimensional allocation")
        n = n[0]
    t = num(n)
    if not t.is_int:
        raise TypeError("expected an integer length")
    if not cur().decide(t.t >= 0, "non-negative length"):
        raise ValueError("negative dimensions are not allowed")
    return t.t


def _const_arr(n, v, dtype):
    ln = _len_term(n)
    if dtype in (bool, np.bool_):
        val = SBool(bool_term(v))
        return SArr(ln, lambda i: val, "b")
    if dtype in (int, np.int64, "int"):
        val = core.to_int(v)
        return SArr(ln, lambda i: val, "i")
    if dtype in (float, np.float64, "float"):
        x = num(v)
        val = SNum(to_real(x.t), x.nan)
        return SArr(ln, lambda i: val, "f")
    raise Unsupported(f"dtype {dtype}")


@npf()
def arange(*a, **k):
    if k:
        raise Unsupported("arange keywords")
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    s, e, d = num(start), num(stop), num(step)
    c = cur()
    if s.is_int and e.is_int and d.is_int:
        if z3.is_int_value(z3.simplify(d.t)) and z3.simplify(d.t).as_long() == 1:
            ln = z3.simplify(e.t - s.t)
        elif c.decide(d.t > 0, "positive step"):
            ln = z3.simplify((e.t - s.t + d.t - 1) / d.t)
        else:
            raise Unsupported("arange with non-positive step")
        if not c.must(ln >= 0):
            ln = s_ite(ln >= 0, ln, z3.IntVal(0))
        return SArr(ln, lambda i: SNum(z3.simplify(s.t + d.t * i)), "i")
    st, et, dt = to_real(s.t), to_real(e.t), to_real(d.t)
    if not c.decide(dt > 0, "positive step"):
        raise Unsupported("arange with non-positive step")
    # length = max(0, ceil((stop - start)/step)), as an integer L with its defining inequalities
    q = core._div(SNum(z3.simplify(et - st)), SNum(dt))
    ql = core.split_integral(q.t)
    if ql[0] is not None and core._const_fraction(ql[1]) is not None:
        L = core.real_to_int(z3.simplify(core.ceil(q).t))
        if L.decl().kind() != z3.Z3_OP_TO_INT:
            if not c.must(L >= 0):
                L = s_ite(L >= 0, L, z3.IntVal(0))
            nan = s_or(s.nan, e.nan, d.nan)
            c.note_external("numpy.arange: start + i*step for i < ceil((stop-start)/step)")
            return SArr(L, lambda i: SNum(st + z3.ToReal(i) * dt, nan), "f")
    key = ("arange", z3.simplify(st).get_id(), z3.simplify(et).get_id(), z3.simplify(dt).get_id())
    if key not in c.uniques:
        L = c.int("arange_len")
        c.keep.extend([z3.simplify(st), z3.simplify(et), z3.simplify(dt)])
        c.assume(s_and(L >= 0,
                       z3.Implies(L == 0, et - st <= 0),
                       z3.Implies(L > 0, z3.And(to_real(L) * dt >= et - st,
                                                (to_real(L) - 1) * dt < et - st))))
        c.uniques[key] = L
    L = c.uniques[key]
    nan = s_or(s.nan, e.nan, d.nan)
    c.note_external("numpy.arange: start + i*step for i < ceil((stop-start)/step)")
    return SArr(L, lambda i: SNum(st + z3.ToReal(i) * dt, nan), "f")


@npf()
def eye(n, M=None, k=0, dtype=float):
    ln = _len_term(n)
    if not isinstance(k, int) or M is not None:
        raise Unsupported("eye")
    return SMat(ln, ln, lambda i, j: SNum(s_ite(z3.simplify(j == i + k), z3.RealVal(1), z3.RealVal(0))))


@npf()
def triu(m, k=0):
    f = m.fn
    return SMat(m.r, m.c, lambda i, j: ite(SBool(z3.simplify(j >= i + k)), f(i, j), num(0.0)), m.kind)


@npf()
def tril(m, k=0):
    f = m.fn
    return SMat(m.r, m.c, lambda i, j: ite(SBool(z3.simplify(j <= i + k)), f(i, j), num(0.0)), m.kind)


@npf()
def fill_diagonal(m, v):
    f = m.fn
    m._store(lambda i, j: ite(SBool(z3.simplify(i == j)), num(v), f(i, j)))


@npf()
def isin(m, vals):
    if isinstance(vals, (list, tuple)):
        def fn(x):
            return SBool(s_or(*[(num(x) == v).t for v in vals]))
        if isinstance(m, SMat):
            return m.map(fn, "b")
        return elementwise(fn, _seq(m), kind="b")
    raise Unsupported("isin")


@npf()
def diff(x, n=1):
    x = _seq(x)
    if n != 1 or not isinstance(x, SArr):
        raise Unsupported("diff")
    f = x.snap()
    ln = z3.simplify(x.n - 1)
    c = cur()
    if not c.must(x.n >= 1):
        ln = s_ite(x.n >= 1, ln, z3.IntVal(0))
    if x.kind == "b":
        return SArr(ln, lambda i: SBool(z3.Xor(bool_term(f(z3.simplify(i + 1))), bool_term(f(i)))), "b")
    return SArr(ln, lambda i: num(f(z3.simplify(i + 1))) - num(f(i)), x.kind)


@npf("ediff1d")
def ediff1d(x): return diff(x)


@npf("sum")
def np_sum(x, axis=None, **k):
    if k:
        raise Unsupported("sum options")
    x = _seq(x)
    if isinstance(x, SMat):
        return x.sum(axis)
    if not isinstance(x, SArr):
        return num(x)
    return core.arr_sum(x)


@npf("count_nonzero")
def count_nonzero(x):
    x = _seq(x)
    f = x.snap()
    return SNum(core.COUNT(x.n, lambda i: bool_term(f(i))))


@npf()
def dot(a, b):
    a, b = _seq(a), _seq(b)
    return a @ b


NP["matmul"] = dot
NP["inner"] = dot


@npf()
def mean(x, axis=None, **k):
    if k:
        raise Unsupported("mean options")
    return core.arr_mean(_seq(x))


@npf()
def nanmean(x):
    x = _seq(x)
    f = x.snap()
    cnt = core.SUM(x.n, lambda i: z3.If(num(f(i)).nan, z3.RealVal(0), z3.RealVal(1)))
    s = core.SUM(x.n, lambda i: z3.If(num(f(i)).nan, z3.RealVal(0), to_real(num(f(i)).t)))
    return SNum(s / cnt, z3.simplify(cnt <= 0))


@npf()
def nansum(x):
    x = _seq(x)
    f = x.snap()
    return SNum(core.SUM(x.n, lambda i: z3.If(num(f(i)).nan, z3.RealVal(0), to_real(num(f(i)).t))))


@npf()
def std(x, axis=None, ddof=0, **k):
    return core.arr_std(_seq(x), ddof)


@npf()
def var(x, axis=None, ddof=0, **k):
    r = core.arr_std(_seq(x), ddof)
    return r * r


@npf()
def average(x, axis=None, weights=None, **k):
    x = _seq(x)
    if weights is None:
        return core.arr_mean(x)
    w = _seq(weights)
    if not cur().decide(x.n == w.n, "weights have equal length"):
        raise TypeError("Axis must be specified when shapes of a and weights differ.")
    f, g = x.snap(), w.snap()
    sw = core.SUM(x.n, lambda i: to_real(num(g(i)).t))
    nanw = core.EXISTS(x.n, lambda i: num(g(i)).nan)
    if not cur().decide(s_or(nanw, sw != 0), "weights do not sum to zero"):
        raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    s = core.SUM(x.n, lambda i: to_real(num(f(i)).t) * to_real(num(g(i)).t))
    nan = s_or(nanw, core.EXISTS(x.n, lambda i: num(f(i)).nan))
    return SNum(s / sw, nan)


@npf("min")
def np_min(x, axis=None, **k):
    x = _seq(x)
    return core.arr_ext(x, "min")


@npf("max")
def np_max(x, axis=None, **k):
    x = _seq(x)
    return core.arr_ext(x, "max")


NP["amin"], NP["amax"] = np_min, np_max


@npf("nanmin")
def nanmin(x, axis=None, **k):
    x = _seq(x)
    _no_nan(x, "nanmin")
    return core.arr_ext(x, "min")


@npf("nanmax")
def nanmax(x, axis=None, **k):
    x = _seq(x)
    _no_nan(x, "nanmax")
    return core.arr_ext(x, "max")


@npf("any")
def np_any(x, axis=None):
    x = _seq(x)
    if isinstance(x, (SBool, SNum)):
        return SBool(bool_term(x))
    return x.any() if isinstance(x, SMat) else core.arr_any(x)


@npf("all")
def np_all(x, axis=None):
    x = _seq(x)
    if isinstance(x, (SBool, SNum)):
        return SBool(bool_term(x))
    return x.all() if isinstance(x, SMat) else core.arr_all(x)


@npf()
def argmax(x, axis=None): return core.arr_argext(_seq(x), "max")


@npf()
def argmin(x, axis=None): return core.arr_argext(_seq(x), "min")


@npf()
def cumsum(x, axis=None): return core.arr_cumsum(_seq(x))


@npf()
def argsort(x, axis=-1, kind=None, **k):
    x = _seq(x)
    f = x.snap()
    _no_nan(x, "argsort")
    m = core.ARGSORT(x.n, lambda i: num(f(i)).t)
    r = SArr(x.n, lambda j: SNum(m.decl(j)), "i")
    r.imap = m
    return r


def _no_nan(x, what):
    f = x.snap()
    nan = core.EXISTS(x.n, lambda i: num(f(i)).nan)
    if not z3.is_false(z3.simplify(nan)) and not cur().must(s_not(nan)):
        raise Unsupported(what + " of an array that may hold NaN")


def strictly_ascending(x):
    """known to ascend (tried for arithmetic sequences only)"""
    if x.kind == "b":
        return False
    f = x.snap()
    with core.bound(x.n) as I:
        e = z3.simplify(to_real(num(f(I)).t))
        if core.is_true(num(f(I)).nan) or not core.contains(e, I) or core._trig_names(e, I):
            return False
    return cur().must(core.FORALL_T(z3.simplify(x.n - 1), lambda j: (num(f(j)) < num(f(z3.simplify(j + 1)))).t))


@npf("sort")
def np_sort(x, axis=-1, **k):
    x = _seq(x)
    if getattr(x, "ascending", None) is x._fn or strictly_ascending(x):
        return x.copy()
    _no_nan(x, "sort")
    f = x.snap()
    m = core.ARGSORT(x.n, lambda i: num(f(i)).t)
    r = SArr(x.n, lambda j: f(m.decl(j)), x.kind)
    r.sorted_of = (SArr(x.n, f, x.kind), r._fn)
    return r


@npf()
def unique(x, return_inverse=False, return_counts=False, return_index=False, **k):
    if return_counts or return_index or k:
        raise Unsupported("unique options")
    x = _seq(x)
    if not return_inverse and strictly_ascending(x):
        return x.copy()
    so = getattr(x, "sorted_of", None)
    if so is not None and not return_inverse and so[1] is x._fn:
        x = so[0]               # a rearrangement has the same values
    _no_nan(x, "unique")
    c = cur()
    f = x.snap()
    with core.bound(x.n) as I:
        e = z3.simplify(z3.substitute(z3.simplify(num(f(I)).t), (I, core.OWN)))
    if core.canonical_vars(e, core.OWN):
        raise Unsupported("unique under a binder")
    key = ("unique", x.n.get_id(), e.get_id())
    if key not in c.uniques:
        m = c.int("nuniq")
        u = c.func("uniq", z3.IntSort(), e.sort())
        inv = c.func("uniq_of", z3.IntSort(), z3.IntSort())
        rep = c.func("uniq_rep", z3.IntSort(), z3.IntSort())
        el = lambda i: z3.substitute(e, (core.OWN, i))
        n = x.n
        c.keep.append(e)
        c.assume(s_and(m >= 0, z3.Implies(n >= 0, m <= n), (m == 0) == (n <= 0)))
        c.fact(lambda j: z3.Implies(z3.And(j >= 0, j < m),
                                    z3.And(rep(j) >= 0, rep(j) < n, el(rep(j)) == u(j), inv(rep(j)) == j)),
               1, {u.name()}, "unique-member")
        c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < n),
                                    z3.And(inv(i) >= 0, inv(i) < m, u(inv(i)) == el(i))),
               1, core._trig_names(e, core.OWN) | {inv.name()}, "unique-inverse")
        c.fact(lambda j, k: z3.Implies(z3.And(j >= 0, j < k, k < m), u(j) < u(k)), 2, {u.name()}, "unique-sorted")
        c.assume(z3.Implies(m > 0, z3.And(inv(rep(m - 1)) == m - 1, rep(m - 1) >= 0, rep(m - 1) < n,
                                          inv(rep(0)) == 0, rep(0) >= 0, rep(0) < n)))
        c.note_external("numpy.unique: the ascending distinct values and their positions")
        c.uniques[key] = (m, u, inv)
    m, u, inv = c.uniques[key]
    r = SArr(m, lambda j: SNum(u(j)), x.kind)
    r.ascending = r._fn
    if return_inverse:
        iv = SArr(x.n, lambda i: SNum(inv(i)), "i")
        iv.groups = (m, iv._fn)
        return r, iv
    return r


@npf()
def bincount(x, weights=None, minlength=0):
    x = _seq(x)
    f = x.snap()
    c = cur()
    # length = max(x) + 1
    gr = getattr(x, "groups", None)
    if gr is not None and gr[1] is x._fn:
        ln = gr[0]
    else:
        ext = core.arr_ext(x, "max")
        ln = z3.simplify(ext.t + 1)
    if weights is None:
        return SArr(ln, lambda j: SNum(core.COUNT(x.n, lambda i: num(f(i)).t == j)), "i")
    w = _seq(weights).snap()
    return SArr(ln, lambda j: SNum(core.SUM(x.n, lambda i: z3.If(num(f(i)).t == j, to_real(num(w(i)).t), z3.RealVal(0)))), "f")


@npf()
def histogram(x, bins=10, weights=None, **k):
    if k:
        raise Unsupported("histogram options")
    x, e = _seq(x), _seq(bins)
    if not isinstance(e, SArr):
        raise Unsupported("histogram with a number of bins")
    f, g = x.snap(), e.snap()
    c = cur()
    if not c.decide(e.n >= 2, "at least one bin"):
        raise Unsupported("histogram with fewer than two edges")
    mono = core.FORALL_T(z3.simplify(e.n - 1), lambda j: num(g(j)).t <= num(g(z3.simplify(j + 1))).t)
    if not c.decide(mono, "bin edges ascend"):
        raise ValueError("`bins` must increase monotonically, when an array")
    last = z3.simplify(e.n - 2)

    def inside(i, j):
        v = num(f(i))
        lo, hi, t = SNum(num(g(j)).t), SNum(num(g(z3.simplify(j + 1))).t), SNum(v.t)
        return s_and(s_not(v.nan), (t >= lo).t, s_or((t < hi).t, s_and(j == last, (t == hi).t)))
    c.note_external("numpy.histogram: half-open bins, the last one closed")
    if weights is None:
        h = SArr(z3.simplify(e.n - 1), lambda j: SNum(core.COUNT(x.n, lambda i: inside(i, j))), "i")
    else:
        w = _seq(weights)
        if not c.decide(w.n == x.n, "weights have equal length"):
            raise ValueError("weights should have the same shape as a.")
        wf = w.snap()
        h = SArr(z3.simplify(e.n - 1), lambda j: SNum(core.SUM(
            x.n, lambda i: z3.If(inside(i, j), to_real(num(wf(i)).t), z3.RealVal(0)))), "f")
    return h, e


@npf()
def where(cond, a=None, b=None):
    cond = _seq(cond)
    if a is None:
        return cond.nonzero()
    if isinstance(cond, SBool):
        return ite(cond, a, b)
    cf = cond.snap()
    a, b = (_seq(v) if not is_scalar(v) else v for v in (a, b))
    for v in (a, b):
        if isinstance(v, SArr) and not cur().decide(v.n == cond.n, "operands have equal length"):
            raise ValueError("operands could not be broadcast together")
    fa = a.snap() if isinstance(a, SArr) else (lambda i: a)
    fb = b.snap() if isinstance(b, SArr) else (lambda i: b)
    return SArr(cond.n, lambda i: ite(cf(i), num(fa(i)), num(fb(i))), "f")


@npf()
def nonzero(x): return _seq(x).nonzero()


@npf()
def flatnonzero(x): return _seq(x).nonzero()[0]


@npf()
def concatenate(xs, axis=0):
    xs = [_seq(x) for x in xs] if isinstance(xs, (list, tuple)) else None
    if xs is None or not all(isinstance(x, SArr) for x in xs):
        raise Unsupported("concatenate")
    r = xs[0]
    for x in xs[1:]:
        r = core.list_concat(r, x)
    r = SArr(r.n, r.snap(), r.kind)
    return r


NP["hstack"] = concatenate


@npf()
def append(a, b):
    a, b = _seq(a), b
    b = _seq(b)
    if is_scalar(b):
        b = lift([b])
    return concatenate([a, b])


@npf()
def flip(x, axis=None): return _seq(x)[::-1]


@npf()
def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = _seq(a), _seq(b)
    d = elementwise(lambda x, y: abs(num(x) - num(y)) <= num(atol) + num(rtol) * abs(num(y)), a, b, "b")
    return core.arr_all(d)


@npf()
def clip(x, a_min=None, a_max=None, **k):
    if k:
        raise Unsupported("clip options")
    def fn(v):
        v = num(v)
        if a_min is not None:
            v = core.smax(v, a_min)
        if a_max is not None:
            v = core.smin(v, a_max)
        return v
    x = _seq(x)
    return elementwise(fn, x) if isinstance(x, SArr) else fn(x)


@npf()
def shape(x):
    x = _seq(x)
    return x.shape if not is_scalar(x) else ()


@npf()
def size(x):
    x = _seq(x)
    return SNum(x.n)


@npf()
def array_split(x, idx):
    """np.array_split at explicit cut positions"""
    x, idx = _seq(x), _seq(idx)
    if not isinstance(idx, SArr):
        raise Unsupported("array_split into equal parts")
    if hasattr(idx, "pieces_of"):
        return idx.pieces_of(x)     # cut positions from a contract
    f, g = x.snap(), idx.snap()
    n, m = x.n, idx.n

    def clampi(t):
        return s_ite(t < 0, s_ite(n + t < 0, z3.IntVal(0), n + t), s_ite(t > n, n, t))

    def piece(j):
        lo = s_ite(z3.simplify(j == 0), z3.IntVal(0), clampi(num(g(z3.simplify(j - 1))).t))
        hi = s_ite(z3.simplify(j == m), n, clampi(num(g(j)).t))
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        return SArr(s_ite(hi >= lo, hi - lo, z3.IntVal(0)), lambda i: f(z3.simplify(lo + i)), x.kind)
    cur().note_external("numpy.array_split at cut positions: x[0:c0], x[c0:c1], ..., x[ck:]")
    return SArr(z3.simplify(m + 1), piece, "o", True)


NP["split"] = array_split


@npf()
def searchsorted(a, v, side="left", **k):
    a = _seq(a)
    v = _seq(v)
    f = a.snap()

    def pos(x):
        x = num(x)
        if side == "left":
            return SNum(core.COUNT(a.n, lambda i: (num(f(i)) < x).t))
        return SNum(core.COUNT(a.n, lambda i: (num(f(i)) <= x).t))
    cur().note_external("numpy.searchsorted on an ascending array: number of smaller (or equal) entries")
    return elementwise(pos, v, kind="i") if isinstance(v, SArr) else pos(v)


class RandomShim:
    """np.random: fresh values constrained by the distribution's support."""

    def __getattr__(self, name):
        real = getattr(np.random, name)

        def f(*a, **k):
            raise Unsupported(f"np.random.{name}")
        return f if callable(real) else real

    def uniform(self, low=0, high=1, size=None):
        c = cur()
        lo, hi = num(low), num(high)
        if size is None:
            r = c.real("unif")
            c.assume(s_and(r >= to_real(lo.t), r < to_real(hi.t)))
            return SNum(r)
        n = _len_term(size)
        a = core.sym_array("unif", n)
        d = a.decl
        c.fact(lambda i: z3.And(d(i) >= to_real(lo.t), d(i) < to_real(hi.t)), 1, {d.name()}, "uniform")
        c.note_external("np.random.uniform: any values in [low, high)")
        return a

    def exponential(self, scale=1.0, size=None):
        c = cur()
        if isinstance(scale, SArr):
            ok = bool_term(np_all(scale >= 0))
        else:
            ok = to_real(num(scale).t) >= 0
        if not c.decide(ok, "non-negative scale"):
            raise ValueError("scale < 0")
        if size is None:
            r = c.real("expo")
            c.assume(r >= 0)
            return SNum(r)
        n = _len_term(size)
        a = core.sym_array("expo", n)
        d = a.decl
        c.fact(lambda i: d(i) >= 0, 1, {d.name()}, "exponential")
        c.note_external("np.random.exponential: any values >= 0")
        return a

    def random(self, size=None):
        return self.uniform(0, 1, size)

    def rand(self, size=None):
        return self.uniform(0, 1, size)


class NPShim(Shim):
    random = RandomShim()


np_shim = NPShim(np, NP)
np_shim.__dict__["_name"] = "numpy"


# --------------------------------------------------------------------------
# builtins

class SRange:
    _pyvc_symbolic = True

    def __init__(self, start, stop, step=1):
        s, e, d = num(start), num(stop), num(step)
        if not (s.is_int and e.is_int and d.is_int):
            raise TypeError("'float' object cannot be interpreted as an integer")
        c = cur()
        self.start, self.step = s.t, d.t
        if z3.is_int_value(z3.simplify(d.t)) and z3.simplify(d.t).as_long() == 1:
            ln = z3.simplify(e.t - s.t)
        elif c.decide(d.t > 0, "positive range step"):
            ln = z3.simplify((e.t - s.t + d.t - 1) / d.t)
        else:
            raise Unsupported("range with non-positive step")
        if not c.must(ln >= 0):
            ln = s_ite(ln >= 0, ln, z3.IntVal(0))
        self.n = ln

    def item(self, i):
        return SNum(z3.simplify(self.start + self.step * i))

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a cut loop")


class SIter:
    """enumerate/zip/reversed over symbolic sequences"""
    _pyvc_symbolic = True

    def __init__(self, n, item):
        self.n, self._item = n, item

    def item(self, i):
        return self._item(i)

    def __iter__(self):
        t = z3.simplify(self.n)
        if z3.is_int_value(t) and t.as_long() <= 64:
            return iter([self._item(z3.IntVal(i)) for i in range(t.as_long())])
        raise Unsupported("iteration over a symbolic sequence outside a cut loop")


def as_iter(x):
    """(n, item) of a symbolic iterable, or None if x is concrete"""
    if isinstance(x, (SRange, SIter)):
        return x.n, x.item
    if hasattr(x, "_pyvc_array"):
        x = x._pyvc_array()
    if isinstance(x, SArr):
        f = x.snap()
        return x.n, f
    if isinstance(x, SMat):
        return x.r, lambda i: SArr(x.c, lambda j: x.fn(i, j), x.kind)
    return None


def concrete_len(it):
    t = z3.simplify(it[0])
    return t.as_long() if z3.is_int_value(t) else None


def b_len(x):
    if hasattr(x, "_pyvc_array"):
        x = x._pyvc_array()
    if isinstance(x, SArr):
        return _maybe_int(SNum(x.n))
    if isinstance(x, SMat):
        return SNum(x.r)
    if isinstance(x, (SRange, SIter)):
        return SNum(x.n)
    if hasattr(x, "_pyvc_len"):
        return x._pyvc_len()
    return builtins.len(x)


def _maybe_int(x):
    t = z3.simplify(x.t)
    return t.as_long() if z3.is_int_value(t) else x


def b_range(*a):
    if deep_symbolic(a):
        return SRange(*((0,) + a if len(a) == 1 else a))
    return builtins.range(*a)


def b_enumerate(x, start=0):
    it = as_iter(x)
    if it is None:
        return builtins.enumerate(x, start)
    n, item = it
    return SIter(n, lambda i: (SNum(z3.simplify(i + start)), item(i)))


def b_zip(*xs):
    its = [as_iter(x) for x in xs]
    if all(i is None for i in its):
        return builtins.zip(*xs)
    its = [i if i is not None else as_iter(lift(list(x))) for i, x in zip(its, xs)]
    n = its[0][0]
    for m, _ in its[1:]:
        if not n.eq(m):
            if not cur().must(n == m):
                n = s_ite(m < n, m, n)
    return SIter(n, lambda i: tuple(f(i) for _, f in its))


def b_sum(x, start=0):
    if isinstance(x, (list, tuple)) and not any(isinstance(v, (SArr, SMat)) for v in x):
        return builtins.sum(x, start)
    it = as_iter(x)
    if it is None:
        return builtins.sum(x, start)
    a = SArr(it[0], it[1], x.kind if isinstance(x, SArr) else "f")
    return core.arr_sum(a) + start if not (isinstance(start, int) and start == 0) else core.arr_sum(a)


def _b_ext(which):
    real = getattr(builtins, which)

    def f(*a, **k):
        if k and deep_symbolic(a):
            if set(k) == {"default"} and len(a) == 1:
                it = as_iter(a[0])
                if it is not None:
                    if not cur().decide(it[0] > 0, "non-empty"):
                        return k["default"]
                    return core.arr_ext(SArr(it[0], it[1], "f"), which)
            raise Unsupported(which + " with options")
        if len(a) == 1:
            it = as_iter(a[0])
            if it is not None:
                if not cur().decide(it[0] > 0, "extremum of a non-empty sequence"):
                    raise ValueError(f"{which}() arg is an empty sequence")
                return core.arr_ext(SArr(it[0], it[1], "f"), which)
            if deep_symbolic(a):
                return core.arr_ext(lift(list(a[0])), which)
        elif deep_symbolic(a):
            r = num(a[0])
            for b in a[1:]:
                r = (core.smin if which == "min" else core.smax)(r, b)
            return r
        return real(*a, **k)
    return f


b_min, b_max = _b_ext("min"), _b_ext("max")


def b_abs(x):
    return abs(x)


def b_float(x=0.0):
    if isinstance(x, (SNum, SBool)):
        x = num(x)
        return SNum(to_real(x.t), x.nan)
    return builtins.float(x)


def b_int(x=0, *a):
    if isinstance(x, (SNum, SBool)):
        return core.to_int(x)
    return builtins.int(x, *a)


def b_bool(x=False):
    if isinstance(x, (SNum, SBool)):
        return SBool(bool_term(x))
    if isinstance(x, SArr):
        return SBool(x.n > 0)
    return builtins.bool(x)


def b_all(x):
    it = as_iter(x)
    if it is None:
        if deep_symbolic(list(x) if isinstance(x, (list, tuple)) else x):
            return SBool(s_and(*[bool_term(v) for v in x]))
        return builtins.all(x)
    return SBool(core.FORALL_T(it[0], lambda i: bool_term(it[1](i))))


def b_any(x):
    it = as_iter(x)
    if it is None:
        if deep_symbolic(list(x) if isinstance(x, (list, tuple)) else x):
            return SBool(s_or(*[bool_term(v) for v in x]))
        return builtins.any(x)
    return SBool(core.EXISTS(it[0], lambda i: bool_term(it[1](i))))


def b_print(*a, **k):
    cur_ctx = core.Ctx.cur
    if cur_ctx is None:
        builtins.print(*a, **k)
    else:
        cur_ctx.printed.append(1)


def b_round(x, n=None):
    if deep_symbolic(x):
        raise Unsupported("round()")
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_sorted(x, *a, **k):
    it = as_iter(x)
    if it is None and not deep_symbolic(x if isinstance(x, (list, tuple)) else ()):
        return builtins.sorted(x, *a, **k)
    if a or k or it is None:
        raise Unsupported("sorted")
    r = np_sort(SArr(it[0], it[1], "f"))
    r.is_list = True
    return r


def b_list(x=()):
    it = as_iter(x)
    if it is None:
        return builtins.list(x)
    return SArr(it[0], it[1], x.kind if isinstance(x, SArr) else "o", True)


def b_tuple(x=()):
    it = as_iter(x)
    if it is None:
        return builtins.tuple(x)
    raise Unsupported("tuple of a symbolic sequence")


def b_reversed(x):
    it = as_iter(x)
    if it is None:
        return builtins.reversed(x)
    n, item = it
    return SIter(n, lambda i: item(z3.simplify(n - 1 - i)))


_ISMAP = {
    "f": (float, np.floating, np.float64), "i": (int, np.integer, np.int64), "b": (bool, np.bool_),
}


def b_isinstance(x, ty):
    if isinstance(x, (SNum, SBool, SArr, SMat)):
        flat = []
        for t in (ty if isinstance(ty, tuple) else (ty,)):
            flat.extend(t.__args__ if isinstance(t, types.UnionType) else (t,))
        if isinstance(x, SArr):
            if getattr(x, "is_series", False):
                return any(getattr(t, "__name__", "") == "Series" for t in flat)
            return (builtins.list if x.is_list else np.ndarray) in flat
        if isinstance(x, SMat):
            return np.ndarray in flat
        if isinstance(x, SBool):
            return builtins.bool in flat or builtins.int in flat or np.bool_ in flat
        if x.is_int:
            return builtins.int in flat
        return builtins.float in flat or np.floating in flat
    return builtins.isinstance(x, ty)


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "sum": b_sum,
    "min": b_min, "max": b_max, "float": b_float, "int": b_int, "bool": b_bool, "all": b_all,
    "any": b_any, "print": b_print, "round": b_round, "sorted": b_sorted, "list": b_list,
    "tuple": b_tuple, "reversed": b_reversed, "isinstance": b_isinstance,
}
class WarningsShim:
    def __getattr__(self, name):
        import warnings
        return getattr(warnings, name)

    def warn(self, *a, **k):
        if core.Ctx.cur is not None:
            core.Ctx.cur.warned.append(1)
        else:
            import warnings
            warnings.warn(*a, **k)


warnings_shim = WarningsShim()
