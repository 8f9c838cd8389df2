"""Helpers called from the transformed code: loops, comprehensions, conditionals."""
import decimal
import sys
import types
import warnings

import numpy as np
import z3

from . import core, npshim
from .core import SArr, SBool, SNum, Unsupported, PathEnd, bool_term, cur, s_and, s_not
from .npshim import as_iter, concrete_len

MAX_CONCRETE_WHILE = 2000


class Poison:
    """a temporary whose value after an arbitrary number of iterations is not described"""
    _pyvc_symbolic = True

    def __init__(self, name):
        object.__setattr__(self, "_n", name)

    def _die(self, *a, **k):
        raise Unsupported("variable %r is changed by a loop whose invariant does not describe it"
                          % object.__getattribute__(self, "_n"))

    def __getattribute__(self, a):
        if a in ("_pyvc_symbolic",):
            return True
        if a == "__class__":
            return Poison
        object.__getattribute__(self, "_die")()


for _m in ("add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne bool len iter getitem setitem "
           "call neg abs and rand or ror invert float int index contains pow rpow").split():
    setattr(Poison, f"__{_m}__", lambda self, *a, **k: object.__getattribute__(self, "_die")())
Poison.__hash__ = object.__hash__


class LoopEnv:
    """What a loop invariant may talk about."""

    def __init__(self, key, n, item, pre):
        self.key, self.n, self.item, self.pre = key, n, item, pre
        self.aux = {}

    def num_items(self):
        return SNum(self.n) if self.n is not None else None


class State:
    def __init__(self, vars, assume=None):
        self.vars = vars
        self.assume = assume or (lambda cur: [])


class Fresh:
    """a value of the given shape about which only the `assume` part is known"""

    def __init__(self, kind="real", n=None, nan=False, is_list=False):
        self.kind, self.n, self.nan, self.is_list = kind, n, nan, is_list

    def make(self, name):
        c = cur()
        if self.n is not None:
            return core.sym_array("h_" + name, core.num(self.n).t, self.kind, self.nan, self.is_list)
        if self.kind == "int":
            return SNum(c.int("h_" + name))
        if self.kind == "bool":
            return SBool(c.bool("h_" + name))
        return SNum(c.real("h_" + name), c.bool("h_nan_" + name) if self.nan else core.FALSE)


def is_poison(x):
    return type(x) is Poison


class LoopDriver:
    def __init__(self, it, qual, k, names, attrs):
        self.it = it
        self.key = (qual, k)
        self.names, self.attrs = names, attrs
        self.sym = False
        self.env = None

    def get(self, name):
        return self._havoc[name]

    def _run(self, frame_locals):
        raise NotImplementedError

    def _check(self, k, st, vals, what):
        from .spec import SYM as S
        c = cur()
        fn, no = self.key
        short = fn.split(":")[1]
        for nm in self.names:
            if nm not in st.vars:
                continue
            v = st.vars[nm]
            if isinstance(v, Fresh):
                continue
            if nm not in vals:
                raise Unsupported(f"loop variable {nm} is unbound")
            for sub, g in S.eq_parts(vals[nm], v):
                c.oblige(f"loop {short}#{no} {what}: {nm}{sub}", g, "loop")
        for i, cond in enumerate(st.assume(vals)):
            c.oblige(f"loop {short}#{no} {what}: condition {i}", bool_term(cond), "loop")

    def _make_havoc(self, st, pre):
        vals = {}
        for nm in self.names:
            if nm in st.vars:
                v = st.vars[nm]
                vals[nm] = v.make(nm) if isinstance(v, Fresh) else (v.copy() if isinstance(v, SArr) else v)
            else:
                vals[nm] = Poison(nm)
        return vals


class ForDriver(LoopDriver):
    def __iter__(self):
        it = as_iter(self.it)
        if it is None:
            yield from self.it
            return
        n, item = it
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 40:
            for j in range(max(0, n.as_long())):
                yield item(z3.IntVal(j))
            return
        from .spec import SYM as S
        c = cur()
        spec = c.engine.loop_spec(self.key, self.names)
        if spec is None:
            raise Unsupported(f"loop {self.key[0]}#{self.key[1]} over a symbolic sequence has no invariant")
        if self.attrs and not getattr(spec, "attrs_ok", False):
            raise Unsupported("loop changes attributes " + ", ".join(self.attrs))
        frame = sys._getframe(1)
        pre = {k: v for k, v in frame.f_locals.items() if not k.startswith("pyvc__")}
        self.env = env = LoopEnv(self.key, SNum(n), lambda j: item(core.num(j).t), pre)
        pre_vals = {nm: pre[nm] for nm in self.names if nm in pre}
        # values at entry must not be changed through the havoc'ed copies
        for nm, v in list(pre_vals.items()):
            if isinstance(v, SArr):
                pre_vals[nm] = v.copy()
            elif isinstance(v, list):
                pre_vals[nm] = list(v)
        env.pre = dict(pre, **pre_vals)
        self._check(0, spec(S, SNum(z3.IntVal(0)), env), pre_vals, "entry")
        k = c.int("k")
        c.assume(s_and(k >= 0, k <= n))
        if getattr(spec, "facts", None):
            spec.facts(S, SNum(k), env)
        st = spec(S, SNum(k), env)
        self._havoc = self._make_havoc(st, pre)
        for cond in st.assume(self._havoc):
            c.assume(bool_term(cond))
        self.sym = True
        if c.decide(k < n, "loop continues"):
            yield item(k)
            # an arbitrary iteration has been executed: the invariant must hold again
            now = sys._getframe(1).f_locals
            vals = {nm: now[nm] for nm in self.names if nm in now}
            st1 = spec(S, SNum(z3.simplify(k + 1)), env)
            self._check(k + 1, st1, vals, "preserved")
            raise PathEnd("loop iteration done")
        c.assume(k == n)
        st = spec(S, SNum(n), env)
        h = self._make_havoc(st, pre)
        for nm, v in st.vars.items():
            if isinstance(v, Fresh) and nm in self._havoc:
                h[nm] = self._havoc[nm]
        self._havoc = h


class WhileDriver(LoopDriver):
    def __iter__(self):
        c = core.Ctx.cur
        spec = c.engine.loop_spec(self.key, self.names) if c is not None else None
        if spec is None:
            cnt = 0
            while True:
                yield None
                cnt += 1
                if c is not None and cnt > 30 and len(c.decisions) > 25:
                    raise Unsupported(f"loop {self.key[0]}#{self.key[1]} has no invariant")
                if cnt > 10 ** 6:
                    raise Unsupported("unbounded loop")
        from .spec import SYM as S
        if self.attrs and not getattr(spec, "attrs_ok", False):
            raise Unsupported("loop changes attributes " + ", ".join(self.attrs))
        frame = sys._getframe(1)
        pre = {k: v for k, v in frame.f_locals.items() if not k.startswith("pyvc__")}
        self.env = env = LoopEnv(self.key, None, None, dict(pre))
        pre_vals = {nm: pre[nm] for nm in self.names if nm in pre}
        self._check(0, spec(S, None, env), pre_vals, "entry")
        st = spec(S, None, env)
        self._havoc = self._make_havoc(st, pre)
        for cond in st.assume(self._havoc):
            c.assume(bool_term(cond))
        self.sym = True
        before = dict(self._havoc)
        yield None
        now = sys._getframe(1).f_locals
        vals = {nm: now[nm] for nm in self.names if nm in now}
        self._check(None, spec(S, None, env), vals, "preserved")
        var = getattr(spec, "variant", None)
        if var is not None:
            b, a = var(before), var(vals)
            c.oblige(f"loop {self.key[0].split(':')[1]}#{self.key[1]} variant decreases",
                     s_and(core.num(b).t > core.num(a).t, core.num(b).t >= 0), "loop")
        raise PathEnd("loop iteration done")


def h_loop(it, qual, k, names, attrs):
    return ForDriver(it, qual, k, names, attrs)


def h_while(qual, k, names, attrs):
    return WhileDriver(None, qual, k, names, attrs)


def kind_of(v):
    if isinstance(v, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(v, SNum):
        return "i" if v.is_int else "f"
    if isinstance(v, (int, np.integer)):
        return "i"
    if isinstance(v, (float, np.floating)):
        return "f"
    return "o"


def h_comp(kind, it, el, cond):
    sy = as_iter(it)
    if sy is None:
        if kind == "gen":
            return (el(x) for x in it if cond is None or cond(x))
        return [el(x) for x in it if cond is None or cond(x)]
    n, item = sy
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 40:
        xs = [item(z3.IntVal(j)) for j in range(max(0, n.as_long()))]
        return h_comp(kind, xs, el, cond)
    if cond is not None:
        m = core.FILTER(n, lambda i: bool_term(cond(item(i))))
        n, base = m.n, item
        item = lambda j: base(m.decl(j))
    with core.bound(n) as I:
        probe = el(item(I))
    return SArr(n, lambda i: el(item(i)), kind_of(probe), True)


def h_ifexp(test, a, b):
    if isinstance(test, (SBool,)):
        c = cur()
        if c.bound_depth:
            ct = z3.simplify(test.t)
            if z3.is_true(ct):
                return a()
            if z3.is_false(ct):
                return b()
            return core.merge(ct, a(), b())
    return a() if test else b()


def h_maybe(*parts):
    """the test of an `if` that guards only warnings: an undecided conjunct counts as true, no case split"""
    c = core.Ctx.cur
    for f, free in parts:
        if c is None:
            t = f()
        else:
            old, c.in_warn = getattr(c, "in_warn", False), True
            try:
                t = f()
            finally:
                c.in_warn = old
        if isinstance(t, SBool) and free and not z3.is_false(z3.simplify(t.t)):
            continue
        if not t:
            return False
    return True


def h_format(s, x):
    xs = x if isinstance(x, tuple) else (x,)
    if any(isinstance(y, (SNum, SArr, SBool)) for y in xs):
        return s                # the text of a message is not modelled
    return s % x


def h_in(x, c, positive):
    if isinstance(c, SArr) and isinstance(x, (SNum, int, float, np.number)):
        f, x = c.snap(), core.num(x)
        t = core.EXISTS(c.n, lambda i: bool_term(core.num(f(i)) == x))
        return SBool(t if positive else s_not(t))
    return (x in c) if positive else (x not in c)


def h_not(x):
    if isinstance(x, SBool):
        return SBool(s_not(x.t))
    return not x


# --------------------------------------------------------------------------
# library shims

class DecimalShim:
    """decimal.Decimal(str(x)) for symbolic x: the finite decimal notation of x."""

    def __getattr__(self, name):
        return getattr(decimal, name)

    def Decimal(self, x):
        if isinstance(x, SNum):
            return SDecimal(x)
        return decimal.Decimal(x)


class SDecimal:
    _pyvc_symbolic = True

    def __init__(self, x):
        self.x = x

    def as_tuple(self):
        c = cur()
        key = ("decimal", z3.simplify(core.to_real(self.x.t)).get_id())
        if key not in c.uniques:
            e = c.int("decexp")
            c.keep.append(z3.simplify(core.to_real(self.x.t)))
            # the exponent is -(number of decimals) or, for notations like 1E+2, positive
            m = c.int("decmant")
            p = core.uf("pow10", core.to_real(s_abs(e)))
            P = c.int("pow10")
            c.assume(s_and(P >= 1, p == z3.ToReal(P), z3.ToReal(m) == core.to_real(self.x.t) * z3.ToReal(P)))
            c.note_external("decimal.Decimal(str(x)): x*10**p is an integer for p = |exponent| of its decimal notation")
            c.uniques[key] = (e, P)
            xr = z3.simplify(core.to_real(self.x.t))
            c.keep.extend([xr, p])
            c.uniques.setdefault("int_products", []).append((xr, p))
        e, P = c.uniques[key]
        return types.SimpleNamespace(exponent=SNum(e))


def s_abs(t):
    return z3.If(t >= 0, t, -t)


decimal_shim = DecimalShim()


def b_str(*a, **k):
    if a and isinstance(a[0], SNum):
        return a[0]
    return str(*a, **k)


def b_map(f, *xs):
    if len(xs) == 1 and as_iter(xs[0]) is not None:
        return h_comp("gen", xs[0], f, None)
    return map(f, *xs)


SHIM_MODULES = {}


def inject_helpers(d):
    d["pyvc__loop"] = h_loop
    d["pyvc__while"] = h_while
    d["pyvc__comp"] = h_comp
    d["pyvc__ifexp"] = h_ifexp
    d["pyvc__not"] = h_not
    d["pyvc__in"] = h_in
    d["pyvc__format"] = h_format
    d["pyvc__maybe"] = h_maybe
    for k, v in npshim.BUILTINS.items():
        d["pyvc__b_" + k] = v
    d["pyvc__b_str"] = b_str
    d["pyvc__b_map"] = b_map
    d["pyvc__b_abs"] = abs


def inject_shims(d):
    for k, v in list(d.items()):
        if v is np:
            d[k] = npshim.np_shim
        elif v is warnings:
            d[k] = npshim.warnings_shim
        elif v is decimal:
            d[k] = decimal_shim
        elif isinstance(v, types.ModuleType) and v.__name__ in SHIM_MODULES:
            d[k] = SHIM_MODULES[v.__name__]
        elif not k.startswith("__") and getattr(v, "__module__", None) and id(v) in OBJ_SHIMS:
            d[k] = OBJ_SHIMS[id(v)]


OBJ_SHIMS = {}


def register_object_shim(real, shim):
    OBJ_SHIMS[id(real)] = shim
    _KEEP.append(real)


_KEEP = []
