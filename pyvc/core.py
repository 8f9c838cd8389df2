"""Symbolic values, paths, facts and reductions.

Numbers are z3 terms over mathematical Int/Real plus an explicit NaN flag.
Arrays are a symbolic length and an element function.  A branch on a symbolic
condition forks the execution: the function is re-executed once per path with a
recorded prefix of decisions.
"""
import fractions
import itertools
import math

import numpy as np
import z3

z3.set_param("auto_config", True)


class Unsupported(BaseException):
    """The code left the verifier's subset."""


class Limit(Unsupported):
    """The code is outside what a contract covers; says nothing about the code."""


class PathEnd(BaseException):
    """The current path ends here by construction (loop iteration, infeasible)."""


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def is_true(t):
    return z3.is_true(t)


def is_false(t):
    return z3.is_false(t)


def s_and(*ts):
    out = []
    for t in ts:
        if t is None or z3.is_true(t):
            continue
        if z3.is_false(t):
            return FALSE
        out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def s_or(*ts):
    out = []
    for t in ts:
        if t is None or z3.is_false(t):
            continue
        if z3.is_true(t):
            return TRUE
        out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def s_not(t):
    if z3.is_true(t):
        return FALSE
    if z3.is_false(t):
        return TRUE
    if z3.is_not(t):
        return t.arg(0)
    return z3.Not(t)


def s_implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def s_ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def real_const(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    f = fractions.Fraction(repr(float(x)))
    return z3.RealVal(f)


def to_real(t):
    if t.sort() == z3.RealSort():
        return t
    if z3.is_int_value(t):
        return z3.RealVal(t.as_long())
    return z3.ToReal(t)


# --------------------------------------------------------------------------
# term utilities

_contains_cache = {}


def term_vars(t):
    """ids of all 0-ary uninterpreted constants in t (cached)."""
    k = t.get_id()
    hit = _contains_cache.get(k)
    if hit is not None and hit[0].eq(t):
        return hit[1]
    out = set()
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
            else:
                stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    _contains_cache[k] = (t, out)
    return out


def contains(t, v):
    return v.get_id() in term_vars(t)


def walk(terms, seen=None):
    """Yield every sub-application once."""
    if seen is None:
        seen = set()
    stack = list(terms)
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_app(x):
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())


class App:
    """an application of an uninterpreted function"""
    __slots__ = ("id", "x", "name", "ints")

    def __init__(self, x):
        self.x, self.id = x, x.get_id()
        self.name = x.decl().name()
        self.ints = [(a.get_id(), a) for a in x.children() if a.sort() == INT] if not self.name.startswith("fn_") else []


INT = z3.IntSort()
_apps_cache = {}


def apps_of(f):
    """the applications in f, each once (cached)"""
    k = f.get_id()
    hit = _apps_cache.get(k)
    if hit is None:
        out = []
        for x in walk([f]):
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(App(x))
        hit = _apps_cache[k] = (f, out)
    return hit[1]


_memo_cache = {}


def memo(fn):
    """function of a term, remembered (the term is kept alive)"""
    d = _memo_cache.setdefault(fn, {})

    def g(t):
        k = t.get_id()
        hit = d.get(k)
        if hit is None:
            hit = d[k] = (t, fn(t))
        return hit[1]
    return g


def depth_of(t, limit=12):
    d = 0
    layer = [t]
    while layer and d < limit:
        nxt = []
        for x in layer:
            if x.num_args():
                nxt.extend(x.children())
        if not nxt:
            break
        layer = nxt
        d += 1
    return d


# --------------------------------------------------------------------------
# the context of one path

class Fact:
    """A universally quantified assumption, instantiated on index terms.

    trig: names of uninterpreted functions whose Int arguments instantiate it.
    """
    _n = itertools.count()

    def __init__(self, fn, arity=1, trig=None, label=""):
        self.fn = fn
        self.arity = arity
        self.trig = trig
        self.label = label
        self.id = next(Fact._n)


class Obligation:
    def __init__(self, name, goal, hyps, ctx, kind="post", nfacts=None):
        self.name = name
        self.goal = goal
        self.hyps = hyps
        self.ctx = ctx
        self.kind = kind
        self.nfacts = nfacts
        self.status = None
        self.backend = None
        self.time = 0.0
        self.detail = ""


class SumObj:
    def __init__(self, decl, params, n, var, guards, factors):
        self.decl = decl          # FuncDeclRef, arity len(params), Real or Int
        self.params = params      # canonical outer bound variables
        self.n = n
        self.var = var
        self.guards = guards      # BoolRef (conjunction)
        self.factors = factors    # RealRef (product) or None for a count

    def inst(self, args):
        """(n, guard(t), factor(t)) for application decl(*args)."""
        subs = list(zip(self.params, args))

        def sub(t):
            return z3.substitute(t, *subs) if subs else t
        n = sub(self.n)
        g = sub(self.guards)
        f = sub(self.factors) if self.factors is not None else None

        def body(t):
            gg = z3.substitute(g, (self.var, t))
            ff = z3.substitute(f, (self.var, t)) if f is not None else z3.RealVal(1)
            return gg, ff
        return n, body


class Ctx:
    cur = None

    def __init__(self, engine=None, decisions=()):
        self.engine = engine
        self.decisions = list(decisions)
        self.pos = 0
        self.pc = []
        self.facts = []
        self.counter = {}
        self.obls = []
        self.sums = {}         # key -> SumObj
        self.sum_by_decl = {}  # decl name -> SumObj
        self.funs = {}
        self.fun_by_decl = {}
        self.exists = {}
        self.firsts = {}
        self.base_sat = None
        self.instances = {}
        self.mins = {}
        self.argsel = {}
        self.maps = {}         # decl name -> IndexMap
        self.filters = {}
        self.perms = {}
        self.uniques = {}
        self.bound_depth = 0
        self.bound_ranges = []
        self.inputs = []       # (name, kind, term/decl, nan decl, length)
        self.writes = []       # (label, site)
        self.notes = []
        self.trace = []        # decisions taken, human readable
        self.keep = []         # keep terms alive
        self.ufs = {}
        self.assumed = set()   # names of external contracts used
        self.warned = []
        self.printed = []

    # -- naming
    def fresh_name(self, base):
        k = self.counter.get(base, 0)
        self.counter[base] = k + 1
        return f"{base}!{k}"

    def int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def real(self, base="r"):
        return z3.Real(self.fresh_name(base))

    def bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def func(self, base, *sorts):
        return z3.Function(self.fresh_name(base), *sorts)

    # -- assumptions
    def assume(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        self.pc.append(t)

    def fact(self, fn, arity=1, trig=None, label=""):
        self.facts.append(Fact(fn, arity, trig, label))

    def note_external(self, name):
        self.assumed.add(name)

    # -- decisions
    def decide(self, t, label=""):
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.bound_depth and any(contains(t, z3.Int(f"%i{d}")) for d in range(self.bound_depth)):
            if not self.engine.feasible(self, s_not(t), bound=True):
                return True
            if not self.engine.feasible(self, t, bound=True):
                return False
            raise Unsupported("branch on an element of a symbolic array under a binder")
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            self.pc.append(t if d else s_not(t))
            self.trace.append((label, d))
            return d
        eng = self.engine
        nt = z3.simplify(s_not(t))
        for f in self.pc:
            if f.eq(t) or f.eq(nt):
                d = f.eq(t)
                self.decisions = self.decisions[:self.pos] + [d]
                self.pos += 1
                return d
        can_t = eng.feasible(self, t)
        can_f = eng.feasible(self, s_not(t))
        if can_t and can_f:
            alt = self.decisions[:self.pos] + [False]
            eng.push(alt)
            d = True
        elif can_t:
            d = True
        elif can_f:
            d = False
        else:
            raise PathEnd("infeasible")
        self.decisions = self.decisions[:self.pos] + [d]
        self.pos += 1
        self.pc.append(t if d else s_not(t))
        self.trace.append((label, d))
        return d

    def choose(self, k, label=""):
        """one of k alternatives; every one is explored"""
        if k == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            for j in range(k - 1, 0, -1):
                self.engine.push(self.decisions[:self.pos] + [j])
            d = 0
            self.decisions = self.decisions[:self.pos] + [d]
        self.pos += 1
        self.trace.append((label, d))
        return d

    def must(self, t):
        """True if t surely holds here (quick entailment)."""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return not self.engine.feasible(self, s_not(t))

    def oblige(self, name, goal, kind="safety"):
        """goal: z3 Bool or formula object; recorded with the current hypotheses."""
        self.obls.append(Obligation(name, goal, list(self.pc), self, kind,
                                    nfacts=len(self.facts)))


def cur():
    if Ctx.cur is None:
        raise Unsupported("no verification context")
    return Ctx.cur


# --------------------------------------------------------------------------
# scalars

def as_term(x):
    """python/numpy scalar or symbolic scalar -> (term, nan)"""
    if isinstance(x, SNum):
        return x.t, x.nan
    if isinstance(x, SBool):
        return s_ite(x.t, z3.IntVal(1), z3.IntVal(0)), FALSE
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x)), FALSE
    if isinstance(x, (int, np.integer)) and not isinstance(x, np.timedelta64):
        return z3.IntVal(int(x)), FALSE
    if isinstance(x, (float, np.floating)):
        if math.isnan(x):
            return z3.RealVal(0), TRUE
        if math.isinf(x):
            raise Unsupported("infinity as a value")
        return real_const(x), FALSE
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_term(x.item())
    raise Unsupported(f"not a scalar: {type(x).__name__}")


def is_scalar(x):
    return isinstance(x, (SNum, SBool, bool, int, float, np.bool_, np.integer,
                          np.floating)) or (isinstance(x, np.ndarray) and x.ndim == 0)


def harmonize(a, b):
    if a.sort() == b.sort():
        return a, b
    return to_real(a), to_real(b)


class SBool:
    __array_ufunc__ = None
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __and__(self, o):
        if isinstance(o, (SArr,)):
            return NotImplemented
        return SBool(s_and(self.t, bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SArr,)):
            return NotImplemented
        return SBool(s_or(self.t, bool_term(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(s_not(self.t))

    def __eq__(self, o):
        if o is None:
            return False
        if isinstance(o, (bool, np.bool_)):
            return self if o else SBool(s_not(self.t))
        if isinstance(o, SBool):
            return SBool(self.t == o.t)
        return SNum(*as_term(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(s_not(r.t)) if isinstance(r, SBool) else not r

    __hash__ = object.__hash__

    def _n(self):
        return SNum(*as_term(self))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return o * self._n()
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __lt__(self, o): return self._n() < o
    def __le__(self, o): return self._n() <= o
    def __gt__(self, o): return self._n() > o
    def __ge__(self, o): return self._n() >= o
    def __repr__(self): return "<symbolic bool>"

    def item(self): return self
    def any(self): return self
    def all(self): return self


def bool_term(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return s_or(x.nan, x.t != 0)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return z3.BoolVal(bool(x))
    raise Unsupported(f"not a boolean: {type(x).__name__}")


def _cmp(op):
    def f(self, o):
        if isinstance(o, SArr) or _is_arraylike(o):
            return NotImplemented
        if o is None or isinstance(o, str):
            if op in ("eq", "ne"):
                return op == "ne"
            raise TypeError("comparison with None")
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            r = {"lt": o > 0, "le": o > 0, "gt": o < 0, "ge": o < 0, "eq": False, "ne": True}[op]
            if op == "ne":
                return SBool(TRUE)
            return SBool(s_and(s_not(self.nan), z3.BoolVal(r)))
        try:
            bt, bn = as_term(o)
        except Unsupported:
            return NotImplemented
        a, b = harmonize(self.t, bt)
        ok = s_and(s_not(self.nan), s_not(bn))
        if a.sort() == z3.RealSort():
            a, b = cmp_reduce(a, b, op)
        if op == "eq":
            return SBool(s_and(ok, a == b))
        if op == "ne":
            return SBool(s_not(s_and(ok, a == b)))
        r = {"lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b,
             "ge": lambda: a >= b}[op]()
        return SBool(s_and(ok, r))
    return f


def _is_arraylike(o):
    return (isinstance(o, np.ndarray) and o.ndim > 0)


def _arith(fn, swap=False):
    def f(self, o):
        if isinstance(o, SArr):
            return NotImplemented
        if _is_arraylike(o) or isinstance(o, (list, tuple)):
            if isinstance(o, (list, tuple)):
                return NotImplemented
            return elementwise(lambda a, b: fn(num(b), num(a)) if swap else fn(num(a), num(b)), self, lift(o))
        if type(o).__name__ in ("Timedelta", "timedelta", "timedelta64", "SObj"):
            return NotImplemented
        if o is None or isinstance(o, str):
            raise TypeError("unsupported operand type(s)")
        try:
            o = num(o)
        except Unsupported:
            return NotImplemented
        return fn(o, self) if swap else fn(self, o)
    return f


def num(x):
    if isinstance(x, SNum):
        return x
    return SNum(*as_term(x))


def _add(a, b):
    x, y = harmonize(a.t, b.t)
    return SNum(x + y, s_or(a.nan, b.nan))


def _sub(a, b):
    x, y = harmonize(a.t, b.t)
    return SNum(x - y, s_or(a.nan, b.nan))


def _mul(a, b):
    x, y = harmonize(a.t, b.t)
    return SNum(x * y, s_or(a.nan, b.nan))


def _div(a, b):
    # division by zero is not modelled (assumption listed in the evidence):
    # the quotient is an unspecified real there
    x, y = to_real(a.t), to_real(b.t)
    y = z3.simplify(y)
    return SNum(x / y, s_or(a.nan, b.nan))


def _floordiv(a, b):
    if a.is_int and b.is_int:
        # python floor division; z3 div is floor only for positive divisors
        if z3.is_int_value(b.t) and b.t.as_long() > 0:
            return SNum(a.t / b.t, s_or(a.nan, b.nan))
        if cur().must(b.t > 0):
            return SNum(a.t / b.t, s_or(a.nan, b.nan))
        raise Unsupported("floor division by a possibly non-positive integer")
    q = _div(a, b)
    return SNum(z3.ToReal(z3.ToInt(q.t)), q.nan)


def _mod(a, b):
    if a.is_int and b.is_int:
        if z3.is_int_value(b.t) and b.t.as_long() > 0 or cur().must(b.t > 0):
            return SNum(a.t % b.t, s_or(a.nan, b.nan))
        raise Unsupported("modulo by a possibly non-positive integer")
    return _sub(a, _mul(b, _floordiv(a, b)))


def _pow(a, b):
    bt = z3.simplify(b.t)
    val = None
    if z3.is_int_value(bt):
        val = bt.as_long()
    elif z3.is_rational_value(bt):
        fr = bt.as_fraction()
        if fr.denominator == 1:
            val = int(fr)
        elif fr == fractions.Fraction(1, 2):
            return sqrt(a)
    if val is not None and abs(val) <= 8:
        if val == 0:
            return SNum(z3.RealVal(1) if not a.is_int else z3.IntVal(1), FALSE)
        r = a
        for _ in range(abs(val) - 1):
            r = _mul(r, a)
        if val < 0:
            return _div(num(1), r)
        return r
    at = z3.simplify(a.t)
    if b.is_int and _const_fraction(at) == 10:
        # an integer power of ten (decimal places)
        return SNum(uf("pow10", bt), s_or(a.nan, b.nan))
    if z3.is_int_value(at) or z3.is_rational_value(at):
        v = at.as_long() if z3.is_int_value(at) else at.as_fraction()
        if v > 0:
            # c ** x = exp(x log c)
            return exp(_mul(b, log(num(SNum(at, FALSE)))))
    return SNum(uf("pow", to_real(a.t), to_real(b.t)), s_or(a.nan, b.nan))


class SNum:
    __array_ufunc__ = None
    __slots__ = ("t", "nan")

    def __init__(self, t, nan=FALSE):
        self.t = t
        self.nan = FALSE if nan is None else nan

    @property
    def is_int(self):
        return self.t.sort() == z3.IntSort()

    def __bool__(self):
        return cur().decide(bool_term(self))

    __lt__ = _cmp("lt")
    __le__ = _cmp("le")
    __gt__ = _cmp("gt")
    __ge__ = _cmp("ge")
    __eq__ = _cmp("eq")
    __ne__ = _cmp("ne")
    __hash__ = object.__hash__

    __add__ = _arith(_add)
    __radd__ = _arith(_add, True)
    __sub__ = _arith(_sub)
    __rsub__ = _arith(_sub, True)
    __mul__ = _arith(_mul)
    __rmul__ = _arith(_mul, True)
    __truediv__ = _arith(_div)
    __rtruediv__ = _arith(_div, True)
    __floordiv__ = _arith(_floordiv)
    __rfloordiv__ = _arith(_floordiv, True)
    __mod__ = _arith(_mod)
    __rmod__ = _arith(_mod, True)
    __pow__ = _arith(_pow)
    __rpow__ = _arith(_pow, True)

    def __neg__(self):
        return SNum(-self.t, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(s_ite(self.t >= 0, self.t, -self.t), self.nan)

    def __invert__(self):
        raise Unsupported("bitwise not of a number")

    def __float__(self):
        raise Unsupported("float() of a symbolic number by library code")

    def __int__(self):
        raise Unsupported("int() of a symbolic number by library code")

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("a symbolic number used as a concrete index")

    def __format__(self, spec):
        return "<symbolic>"

    def __repr__(self):
        return "<symbolic number>"
    __str__ = __repr__

    def item(self): return self
    def copy(self): return self

    def astype(self, ty):
        return to_int(self) if ty in (int, np.int64, "int") else SNum(to_real(self.t), self.nan)

    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0

    def any(self): return SBool(bool_term(self))
    def all(self): return SBool(bool_term(self))


def to_int(x):
    """python int(): truncation towards zero."""
    x = num(x)
    if x.is_int:
        return x
    return SNum(s_ite(x.t >= 0, z3.ToInt(x.t), -z3.ToInt(-x.t)), FALSE)


# -- polynomial normal form (sums of coef * product of factor^exponent)

def poly(t, limit=40):
    """{key: (coef, {factor id: [factor, exponent]})} or None if too large.
    Cancels f/f only when f != 0 is known on the path."""
    out = {}

    def put(coef, fs):
        fs = {i: fe for i, fe in fs.items() if fe[1] != 0}
        key = tuple(sorted((i, fe[1]) for i, fe in fs.items()))
        if key in out:
            c = out[key][0] + coef
            out[key] = (c, fs)
        else:
            out[key] = (coef, fs)
        if len(out) > limit:
            raise OverflowError

    def mul(f1, f2):
        r = {i: list(fe) for i, fe in f1.items()}
        for i, (f, e) in f2.items():
            if i in r:
                if (r[i][1] > 0) != (e > 0) and not nonzero(f):
                    raise OverflowError
                r[i][1] += e
            else:
                r[i] = [f, e]
        return r

    def go(e):
        """list of (coef, factors)"""
        fr = _const_fraction(e) if not e.num_args() or e.decl().kind() == z3.Z3_OP_UMINUS else None
        if fr is not None:
            return [(fr, {})]
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            return [x for a in e.children() for x in go(a)]
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            return go(ch[0]) + [(-c, f) for a in ch[1:] for c, f in go(a)]
        if k == z3.Z3_OP_UMINUS:
            return [(-c, f) for c, f in go(e.arg(0))]
        if k == z3.Z3_OP_MUL:
            r = [(fractions.Fraction(1), {})]
            for a in e.children():
                ga = go(a)
                r = [(c1 * c2, mul(f1, f2)) for c1, f1 in r for c2, f2 in ga]
                if len(r) > limit:
                    raise OverflowError
            return r
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            gb = go(b)
            if len(gb) == 1 and gb[0][0] != 0:
                c2, f2 = gb[0]
                inv = {i: [f, -x] for i, (f, x) in f2.items()}
                return [(c1 / c2, mul(f1, inv)) for c1, f1 in go(a)]
            i = z3.simplify(b)
            return [(c1, mul(f1, {i.get_id(): [_keep(i), -1]})) for c1, f1 in go(a)]
        if k == z3.Z3_OP_TO_REAL:
            a = e.arg(0)
            ka = a.decl().kind()
            if ka == z3.Z3_OP_ADD:
                return [x for y in a.children() for x in go(to_real(y))]
            if ka == z3.Z3_OP_SUB:
                ch = a.children()
                return go(to_real(ch[0])) + [(-c, f) for y in ch[1:] for c, f in go(to_real(y))]
            if ka == z3.Z3_OP_UMINUS:
                return [(-c, f) for c, f in go(to_real(a.arg(0)))]
            if ka == z3.Z3_OP_MUL:
                r = [(fractions.Fraction(1), {})]
                for y in a.children():
                    r = [(c1 * c2, mul(f1, f2)) for c1, f1 in r for c2, f2 in go(to_real(y))]
                return r
        _keep(e)
        return [(fractions.Fraction(1), {e.get_id(): [e, 1]})]

    try:
        for c, f in go(t):
            put(c, f)
    except OverflowError:
        return None
    return {k: v for k, v in out.items() if v[0] != 0}


def _keep(t):
    c = Ctx.cur
    if c is not None:
        c.keep.append(t)
    return t


def nonzero(f):
    c = cur()
    k = ("nz", f.get_id())
    if k not in c.uniques:
        _keep(f)
        n = len(c.pc)
        c.uniques[k] = (c.must(f != 0), n)
    r, n = c.uniques[k]
    if not r and len(c.pc) > n:
        c.uniques[k] = (c.must(f != 0), len(c.pc))
    return c.uniques[k][0]


def positive(f):
    c = cur()
    k = ("pos", f.get_id())
    if k not in c.uniques or (not c.uniques[k][0] and len(c.pc) > c.uniques[k][1]):
        _keep(f)
        c.uniques[k] = (False, len(c.pc))     # asked again meanwhile: not known
        c.uniques[k] = (c.must(f > 0), len(c.pc))
    return c.uniques[k][0]


def unpoly(p):
    tot = None
    for c, fs in p.values():
        t = None
        for f, e in fs.values():
            for _ in range(abs(e)):
                if e > 0:
                    t = f if t is None else t * f
        den = None
        for f, e in fs.values():
            for _ in range(abs(e)):
                if e < 0:
                    den = f if den is None else den * f
        if t is None:
            t = z3.RealVal(c)
        elif c != 1:
            t = z3.RealVal(c) * t
        if den is not None:
            t = t / den
        tot = t if tot is None else tot + t
    return tot if tot is not None else z3.RealVal(0)


def _is_nonlinear(t):
    for x in walk([t]):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_DIV and _const_fraction(x.arg(1)) is None:
                return True
            if k == z3.Z3_OP_MUL and sum(1 for a in x.children() if _const_fraction(a) is None) >= 2:
                return True
    return False


def _integral_factors(fs):
    """the product of the factors is an integer (products recorded in int_products count)"""
    c = cur()
    left = {i: [f, e] for i, (f, e) in fs.items()}
    if any(e < 0 for _, e in left.values()):
        return False
    for a, b in c.uniques.get("int_products", []):
        while a.get_id() in left and b.get_id() in left and left[a.get_id()][1] > 0 and left[b.get_id()][1] > 0:
            left[a.get_id()][1] -= 1
            left[b.get_id()][1] -= 1
    return all(e == 0 or f.decl().kind() == z3.Z3_OP_TO_REAL for f, e in left.values())


def split_integral(t):
    """t = u + r with u integer-valued; (u or None, r)"""
    p = poly(to_real(z3.simplify(t)))
    if p is None:
        return None, t
    ints, rest = {}, {}
    for k, (c, fs) in p.items():
        if c.denominator == 1 and _integral_factors(fs):
            ints[k] = (c, fs)
        elif not fs:
            w = c.numerator // c.denominator
            if w:
                ints[k] = (fractions.Fraction(w), fs)
            rest[k] = (c - w, fs)
        else:
            rest[k] = (c, fs)
    if not ints:
        return None, unpoly(rest)
    return unpoly(ints), unpoly(rest)


def _floor_term(t):
    if not _is_floorable(t):
        return z3.ToReal(z3.ToInt(t))
    u, r = split_integral(t)
    f = _const_fraction(r)
    low = z3.RealVal(f.numerator // f.denominator) if f is not None else z3.ToReal(z3.ToInt(r))
    return low if u is None else (u if f is not None and f.numerator // f.denominator == 0 else u + low)


def _is_floorable(t):
    return Ctx.cur is not None


def floor(x):
    x = num(x)
    if x.is_int:
        return SNum(to_real(x.t), x.nan)
    return SNum(_floor_term(x.t), x.nan)


def ceil(x):
    x = num(x)
    if x.is_int:
        return SNum(to_real(x.t), x.nan)
    return SNum(z3.simplify(-_floor_term(-x.t)), x.nan)


def _int_cmp(p, op):
    """(a', b') of integers for a polynomial p op 0 over integers and a rational constant"""
    q = fractions.Fraction(0)
    pos, neg = z3.IntVal(0), z3.IntVal(0)
    for c, fs in p.values():
        fs = {i: fe for i, fe in fs.items() if fe[1] != 0}
        if not fs:
            q += c
            continue
        (f, e), = fs.values() if len(fs) == 1 else ((None, 0),)
        if f is None or e != 1 or c.denominator != 1 or f.decl().kind() != z3.Z3_OP_TO_REAL:
            return None
        t = f.arg(0)
        if c > 0:
            pos = pos + int(c) * t if c != 1 else pos + t
        else:
            neg = neg + int(-c) * t if c != -1 else neg + t
    lo = q.numerator // q.denominator
    if q != lo:
        if op in ("eq", "ne"):
            return z3.IntVal(0), z3.IntVal(1)
        if op in ("gt", "le"):
            lo += 1
    if lo > 0:
        pos = pos + lo
    elif lo < 0:
        neg = neg - lo
    return z3.simplify(pos), z3.simplify(neg)


def cmp_reduce(a, b, op=None):
    """(a', b') with a op b iff a' op b', a common positive factor divided out"""
    if Ctx.cur is None or not (_is_nonlinear(a) or _is_nonlinear(b)):
        return a, b
    d = z3.simplify(a - b)
    p = poly(d)
    if not p:
        return a, b
    common = None
    for c, fs in p.values():
        ids = {i: e for i, (f, e) in fs.items() if e > 0}
        common = ids if common is None else {i: min(e, common[i]) for i, e in ids.items() if i in common}
        if not common:
            return a, b
    first = next(iter(p.values()))[1]
    done = False
    for i, e in common.items():
        f = first[i][0]
        if contains(f, z3.Int("%i0")) or not positive(f):
            continue
        done = True
        for c, fs in p.values():
            fs[i][1] -= e
    if not done:
        return a, b
    r = _int_cmp(p, op) if op else None
    if r is not None:
        return r
    return z3.simplify(unpoly(p)), z3.RealVal(0)


# transcendental functions: uninterpreted, with axioms instantiated on the
# occurring applications (pyvc/prove.py)
_UF = {}


def uf(name, *args):
    d = _UF.get((name, len(args)))
    if d is None:
        d = z3.Function("fn_" + name, *([z3.RealSort()] * (len(args) + 1)))
        _UF[(name, len(args))] = d
    return d(*[to_real(z3.simplify(a)) for a in args])


def _const_fraction(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return fractions.Fraction(t.as_long())
    if z3.is_rational_value(t):
        return t.as_fraction()
    return None


def log(x):
    x = num(x)
    f = _const_fraction(x.t)
    if f == 1:
        return SNum(z3.RealVal(0), x.nan)
    if f is not None and f > 0:
        return SNum(uf("log", x.t), x.nan)
    return SNum(uf("log", x.t), s_or(x.nan, to_real(x.t) < 0))


def exp(x):
    x = num(x)
    if _const_fraction(x.t) == 0:
        return SNum(z3.RealVal(1), x.nan)
    t = z3.simplify(to_real(x.t))
    if _is_nonlinear(t):
        p = poly(t)
        t = z3.simplify(unpoly(dict(sorted(p.items())))) if p is not None else t
    return SNum(uf("exp", t), x.nan)


def sqrt(x):
    x = num(x)
    f = _const_fraction(x.t)
    if f is not None and f >= 0:
        r = fractions.Fraction(math.isqrt(f.numerator), math.isqrt(f.denominator))
        if r * r == f:
            return SNum(z3.RealVal(r), x.nan)
        return SNum(uf("sqrt", x.t), x.nan)
    return SNum(uf("sqrt", x.t), s_or(x.nan, to_real(x.t) < 0))


def log10(x):
    x = num(x)
    f = _const_fraction(x.t)
    if f is not None and f > 0:
        k = 0
        while f >= 10:
            f, k = f / 10, k + 1
        while f < 1:
            f, k = f * 10, k - 1
        if f == 1:
            return SNum(z3.RealVal(k), x.nan)
    return _div(log(x), log(num(10)))


def uf1(name):
    def f(x):
        x = num(x)
        return SNum(uf(name, x.t), x.nan)
    return f


sin, cos, tan, arctan, arcsin = map(uf1, ["sin", "cos", "tan", "arctan", "arcsin"])


def ite(c, a, b):
    """if-then-else on symbolic scalars."""
    ct = bool_term(c)
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return SBool(s_ite(ct, bool_term(a), bool_term(b)))
    if a is b:
        return a
    x, y = num(a), num(b)
    p, q = harmonize(x.t, y.t)
    return SNum(s_ite(ct, p, q), s_ite(ct, x.nan, y.nan))


def smax(a, b):
    a, b = num(a), num(b)
    p, q = harmonize(a.t, b.t)
    return SNum(s_ite(p >= q, p, q), s_or(a.nan, b.nan))


def smin(a, b):
    a, b = num(a), num(b)
    p, q = harmonize(a.t, b.t)
    return SNum(s_ite(p <= q, p, q), s_or(a.nan, b.nan))


# --------------------------------------------------------------------------
# bound variables and reductions

class bound:
    """Canonical bound variable for the current nesting depth, ranging over [0, n)."""

    def __init__(self, n=None):
        self.n = n

    def __enter__(self):
        c = cur()
        v = z3.Int(f"%i{c.bound_depth}")
        c.bound_depth += 1
        c.bound_ranges.append((v, self.n))
        return v

    def __exit__(self, *a):
        c = cur()
        c.bound_depth -= 1
        c.bound_ranges.pop()


def schema(n, body):
    """body(i) as a term schema, i in [0, n): reductions in it take i as a parameter"""
    with bound(n) as I:
        t = body(I)
    return lambda i: z3.substitute(t, (I, i))


def arbitrary(n, body):
    """0 <= k < n -> body(k) for a new k"""
    c = cur()
    k = c.int("el")
    try:
        if c.bound_depth:
            raise Unsupported("nested")
        t = schema(n, body)(k)
    except Unsupported:
        t = body(k)
    return s_implies(s_and(k >= 0, k < n), t)


def canonical_vars(t, own):
    c = cur()
    out = []
    for d in range(c.bound_depth + 4):
        v = z3.Int(f"%i{d}")
        if not v.eq(own) and contains(t, v):
            out.append(v)
    for d in range(4):
        v = z3.Int(f"%q{d}")
        if contains(t, v):
            out.append(v)
    return out


OWN = z3.Int("%own")


def abstract(terms, I):
    """alpha-normalise: own bound variable -> %own, outer ones -> %p0.. ;
    returns (terms, params, args)"""
    args = []
    for t in terms:
        for v in canonical_vars(t, I):
            if not any(v.eq(p) for p in args):
                args.append(v)
    args.sort(key=lambda v: v.decl().name())
    params = [z3.Int(f"%p{k}") for k in range(len(args))]
    sub = [(I, OWN)] + list(zip(args, params))
    return [z3.simplify(z3.substitute(t, *sub)) for t in terms], params, args


def _decompose(e, I):
    """e as a sum of (coef, guards, factors); coef free of I."""
    one = z3.RealVal(1)
    if not contains(e, I):
        return [(e, (), ())]
    if not z3.is_app(e):
        return [(one, (), (e,))]
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return [x for a in e.children() for x in _decompose(a, I)]
    if k == z3.Z3_OP_SUB:
        ch = e.children()
        out = _decompose(ch[0], I)
        for a in ch[1:]:
            out = out + [(-c, g, f) for c, g, f in _decompose(a, I)]
        return out
    if k == z3.Z3_OP_UMINUS:
        return [(-c, g, f) for c, g, f in _decompose(e.arg(0), I)]
    if k == z3.Z3_OP_MUL:
        out = [(one, (), ())]
        for a in e.children():
            da = _decompose(a, I)
            out = [(c1 * c2, g1 + g2, f1 + f2) for c1, g1, f1 in out for c2, g2, f2 in da]
            if len(out) > 64:
                return [(one, (), (e,))]
        return out
    if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 2:
        da = _decompose(e.arg(0), I)
        return [(c1 * c2, g1 + g2, f1 + f2) for c1, g1, f1 in da for c2, g2, f2 in da]
    if k == z3.Z3_OP_DIV:
        a, b = e.children()
        if not contains(b, I):
            return [(c / b, g, f) for c, g, f in _decompose(a, I)]
        inv = one / b
        if not contains(a, I) or _const_fraction(a) is not None:
            return [(a, (), (inv,))]
        return [(c, g, f + (inv,)) for c, g, f in _decompose(a, I)]
    if k == z3.Z3_OP_ITE:
        c, a, b = e.children()
        da, db = _decompose(a, I), _decompose(b, I)
        if not contains(c, I):
            z = z3.RealVal(0)
            return [(z3.If(c, co, z), g, f) for co, g, f in da] + \
                   [(z3.If(c, z, co), g, f) for co, g, f in db]
        nc = s_not(c)
        return [(co, g + (c,), f) for co, g, f in da] + \
               [(co, g + (nc,), f) for co, g, f in db]
    if k == z3.Z3_OP_TO_REAL:
        a = e.arg(0)
        ka = a.decl().kind()
        if ka in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [to_real(x) for x in a.children()]
            if ka == z3.Z3_OP_ADD:
                r = ch[0]
                for x in ch[1:]:
                    r = r + x
            elif ka == z3.Z3_OP_MUL:
                r = ch[0]
                for x in ch[1:]:
                    r = r * x
            elif ka == z3.Z3_OP_SUB:
                r = ch[0]
                for x in ch[1:]:
                    r = r - x
            else:
                r = -ch[0]
            return _decompose(r, I)
        if ka == z3.Z3_OP_ITE:
            c, x, y = a.children()
            return _decompose(z3.If(c, to_real(x), to_real(y)), I)
    return [(one, (), (e,))]


def _conjuncts(gs):
    out = {}
    stack = list(gs)
    while stack:
        g = z3.simplify(stack.pop())
        if z3.is_true(g):
            continue
        if z3.is_and(g):
            stack.extend(g.children())
            continue
        if z3.is_not(g) and z3.is_or(g.arg(0)):
            stack.extend(s_not(x) for x in g.arg(0).children())
            continue
        out[g.get_id()] = g
    for g in out.values():
        if z3.is_false(g):
            return None
        ng = z3.simplify(s_not(g))
        if ng.get_id() in out:
            return None
    le = {}
    for i, g in out.items():
        xy = _int_le(g)
        if xy is not None:
            le[i] = (z3.simplify(xy[1] - xy[0]), xy)
    for i, (d, (x, y)) in list(le.items()):
        for j, (d2, _) in list(le.items()):
            if i < j and i in out and j in out:
                s = z3.simplify(d + d2)
                if z3.is_int_value(s) and s.as_long() == 0:
                    del out[i], out[j]
                    q = z3.simplify(_int_eq(d))
                    out[q.get_id()] = q
                    _keep(q)
    gs = sorted(out.values(), key=lambda g: g.sexpr())
    return gs


def _int_eq(d):
    """d == 0 with the negative terms on the right"""
    p = poly(z3.ToReal(d))
    r = _int_cmp(p, "eq") if p else None
    return r[0] == r[1] if r is not None else d == 0


def _int_le(g):
    """(x, y) for g saying x <= y of integers"""
    neg = z3.is_not(g)
    h = g.arg(0) if neg else g
    if not z3.is_app(h) or h.num_args() != 2 or h.arg(0).sort() != z3.IntSort():
        return None
    k = h.decl().kind()
    x, y = h.children()
    if k == z3.Z3_OP_GE:
        x, y = y, x
    elif k != z3.Z3_OP_LE:
        return None
    return (y + 1, x) if neg else (x, y)


def _in_range_guard(n, I, conj):
    """drop guards that hold for every index in [0, n)"""
    keep = []
    for g in conj:
        s = z3.simplify(z3.And(I >= 0, I < n, s_not(g)))
        if z3.is_false(s):
            continue
        keep.append(g)
    return keep


def _pullback(n, I, conj, fac):
    """Rewrite a reduction over a filtered/permuted domain to the base domain."""
    c = cur()
    changed = True
    while changed:
        changed = False
        terms = list(conj) + ([fac] if fac is not None else [])
        if not any(contains(t, I) for t in terms):
            return n, conj, fac
        cands = {}
        for x in walk(terms):
            if z3.is_app(x) and x.num_args() >= 1 and x.decl().name() in c.maps:
                m = c.maps[x.decl().name()]
                if x.arg(x.num_args() - 1).eq(I):
                    cands[x.decl().name()] = x
        for name, app in cands.items():
            m = c.maps[name]
            if not m.n.eq(n):
                continue
            J = z3.Int("%pull")
            sub = [z3.substitute(t, (app, J)) for t in terms]
            if any(contains(t, I) for t in sub):
                continue
            sub = [z3.substitute(t, (J, I)) for t in sub]
            conj = sub[:len(conj)]
            fac = sub[len(conj)] if fac is not None else None
            if m.mask is not None:
                conj = conj + [m.mask(I)]
            conj = _conjuncts(conj)
            if conj is None:
                return None
            n = m.base_n
            changed = True
            break
    return n, conj, fac


def SUM(n, body, int_count=False):
    """Real term for sum_{0<=i<n} body(i); body returns a Real term."""
    c = cur()
    n = z3.simplify(n)
    if z3.is_int_value(n):
        k = n.as_long()
        if k <= 0:
            return z3.RealVal(0)
        if k <= 12:
            r = body(z3.IntVal(0))
            for i in range(1, k):
                r = r + body(z3.IntVal(i))
            return r
    with bound(n) as I:
        e = z3.simplify(to_real(body(I)))
        parts = {}
        for coef, gs, fs in _decompose(e, I):
            cf = _const_fraction(coef)
            if cf == 0:
                continue
            conj = _conjuncts(gs)
            if conj is None:
                continue
            fac = None
            if fs:
                fs = sorted(fs, key=lambda t: t.sexpr())
                fac = fs[0]
                for f in fs[1:]:
                    fac = fac * f
                fac = z3.simplify(fac)
            pb = _pullback(n, I, conj, fac)
            if pb is None:
                continue
            n2, conj, fac = pb
            conj = _canon_conj(conj, I)
            g = z3.simplify(s_and(*conj)) if conj else TRUE
            if z3.is_false(g):
                continue
            key = (n2.get_id(), g.get_id(), fac.get_id() if fac is not None else None)
            if key in parts:
                parts[key] = (parts[key][0] + coef,) + parts[key][1:]
            else:
                parts[key] = (coef, n2, g, fac)
        total = None
        for key, (coef, n2, g, fac) in parts.items():
            if _const_fraction(coef) == 0:
                continue
            s = _sum_atom(n2, I, g, fac)
            term = coef * s
            total = term if total is None else total + term
    return z3.simplify(total) if total is not None else z3.RealVal(0)


def _match(p, t, pset, binding):
    """t is an instance of p with integer parameters bound"""
    i = p.get_id()
    if i in pset:
        b = binding.get(i)
        if b is None:
            if not z3.is_int(t) or contains(t, OWN):
                return False
            binding[i] = t
            return True
        return b.eq(t)
    if not p.num_args() or not t.num_args():
        return p.eq(t)
    if p.num_args() != t.num_args() or not p.decl().eq(t.decl()):
        return False
    return all(_match(a, b, pset, binding) for a, b in zip(p.children(), t.children()))


def _instance_of_sum(c, tt, count):
    for so in c.sums.values():
        if not so.params or (so.factors is None) != count:
            continue
        pset = {q.get_id() for q in so.params}
        binding = {}
        if _match(so.n, tt[0], pset, binding) and _match(so.guards, tt[1], pset, binding) and \
                (count or _match(so.factors, tt[2], pset, binding)) and len(binding) == len(pset):
            return so, [binding[q.get_id()] for q in so.params]
    return None


def _int_atom(t, I):
    """(T, op, R, positive): an integer comparison as T(I) op R with R free of I, or None"""
    pos = True
    while z3.is_not(t):
        t, pos = t.arg(0), not pos
    if not z3.is_app(t) or t.num_args() != 2 or not z3.is_int(t.arg(0)):
        return None
    op = t.decl().kind()
    a, b = t.arg(0), t.arg(1)
    if op == z3.Z3_OP_GE:
        a, b, op = b, a, z3.Z3_OP_LE
    elif op == z3.Z3_OP_LT:
        a, b, op, pos = b, a, z3.Z3_OP_LE, not pos
    elif op == z3.Z3_OP_GT:
        op, pos = z3.Z3_OP_LE, not pos
    if op not in (z3.Z3_OP_LE, z3.Z3_OP_EQ):
        return None
    d = z3.simplify(a - b, som=True)
    parts = d.children() if z3.is_add(d) else [d]
    own = [x for x in parts if contains(x, I)]
    rest = [x for x in parts if not contains(x, I)]
    if not own or not all(_lin(x) for x in own):
        return None
    own.sort(key=lambda x: _lin(x)[1].sexpr())
    T = own[0] if len(own) == 1 else z3.Sum(own)
    R = z3.simplify(-z3.Sum(rest)) if rest else z3.IntVal(0)
    if _lin(own[0])[0] < 0:      # -T <= R  iff  not (T <= -R-1)
        T = z3.simplify(-T)
        R = z3.simplify(-R)
        if op == z3.Z3_OP_LE:
            R, pos = z3.simplify(R - 1), not pos
    return T, op, R, pos


def _lin(x):
    if z3.is_mul(x):
        if x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            return x.arg(0).as_long(), x.arg(1)
        return None
    return 1, x


def _canon_conj(conj, I):
    """the conjunction with integer bounds on the same term merged and in one normal form"""
    lo, hi, eq, out, T_of = {}, {}, {}, [], {}

    def diff(a, b):
        d = z3.simplify(a - b)
        return d.as_long() if z3.is_int_value(d) else None
    flat = []
    for g in conj:
        flat += list(g.children()) if z3.is_and(g) else [g]
    for g in flat:
        p = _int_atom(g, I)
        if p is None:
            out.append(g)
            continue
        T, op, R, pos = p
        k = T.get_id()
        T_of[k] = T
        if op == z3.Z3_OP_EQ:
            if not pos:
                out.append(z3.Not(T == R))
            else:
                eq.setdefault(k, []).append(R)
        elif pos:
            hi.setdefault(k, []).append(R)
        else:
            lo.setdefault(k, []).append(z3.simplify(R + 1))

    def tighten(rs, sign):
        kept = []
        for r in rs:
            for j, q in enumerate(kept):
                d = diff(r, q)
                if d is not None:
                    if d * sign > 0:
                        kept[j] = r
                    break
            else:
                kept.append(r)
        return kept
    for k, T in T_of.items():
        e, h, l = tighten(eq.get(k, []), 0), tighten(hi.get(k, []), -1), tighten(lo.get(k, []), 1)
        for r in eq.get(k, []):
            for q in e:
                d = diff(r, q)
                if d is not None and d != 0:
                    return [FALSE]
        for a in list(l):
            for b in list(h):
                d = diff(b, a)
                if d is not None and d < 0:
                    return [FALSE]
                if d == 0 and a in l and b in h:
                    e = e + [a]
                    l = [x for x in l if x is not a]
                    h = [x for x in h if x is not b]
        for r in e:
            h2, l2 = [], []
            for x in h:
                d = diff(x, r)
                if d is None:
                    h2.append(x)
                elif d < 0:
                    return [FALSE]
            for x in l:
                d = diff(x, r)
                if d is None:
                    l2.append(x)
                elif d > 0:
                    return [FALSE]
            h, l = h2, l2
        out += [T == r for r in e] + [T <= r for r in h] + [z3.Not(T <= z3.simplify(r - 1)) for r in l]
    return out


def _canon_atoms(t, I, own_free):
    """integer comparisons in one normal form; own_free(R) may replace the side without I"""
    if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) and _int_atom(t, I) is None:
        ch = [_canon_atoms(x, I, own_free) for x in t.children()]
        return z3.Not(ch[0]) if z3.is_not(t) else t.decl()(*ch)
    p = _int_atom(t, I)
    if p is None:
        return t
    T, op, R, pos = p
    R = own_free(R)
    r = (T == R) if op == z3.Z3_OP_EQ else (T <= R)
    return r if pos else z3.Not(r)


def _sum_atom(n, I, g, fac):
    c = cur()
    if fac is None and z3.is_true(g):
        return z3.ToReal(n)
    extra = []

    def own_free(R):
        if not R.num_args() or z3.is_int_value(R) or not any(
                contains(R, z3.Int(f"%i{d}")) for d in range(c.bound_depth + 4)):
            return R
        for q, r in extra:
            if r.eq(R):
                return q
        q = z3.Int(f"%q{len(extra)}")
        extra.append((q, R))
        return q
    g = _canon_atoms(g, I, own_free)
    if extra:
        r = _sum_atom_(n, I, g, fac)
        return z3.substitute(r, *extra)
    return _sum_atom_(n, I, g, fac)


def _sum_atom_(n, I, g, fac):
    c = cur()
    tt = [n, g] + ([fac] if fac is not None else [])
    if n.num_args() and not z3.is_int_value(n):
        # a compound length becomes a parameter of the reduction
        _, params, args = abstract(tt[1:], I)
        sub = [(I, OWN)] + list(zip(args, params))
        tt = [z3.simplify(z3.substitute(t, *sub)) for t in tt[1:]]
        p = z3.Int(f"%p{len(params)}")
        tt, params, args = [p] + tt, params + [p], args + [n]
    else:
        tt, params, args = abstract(tt, I)
    tt[1] = _canon_atoms(tt[1], OWN, lambda R: R)
    c.keep.append(tt[1])
    k = tuple(t.get_id() for t in tt)
    if k not in c.sums:
        got = _instance_of_sum(c, tt, fac is None)
        if got is not None:
            so, binding = got
            sub = list(zip(params, args))
            t = so.decl(*[z3.substitute(b, *sub) if sub else b for b in binding])
            return z3.ToReal(t) if fac is None else t
        base = "cnt" if fac is None else "sum"
        rs = z3.IntSort() if fac is None else z3.RealSort()
        d = z3.Function(c.fresh_name(base), *([z3.IntSort()] * len(params)), rs)
        so = SumObj(d, params, tt[0], OWN, tt[1], tt[2] if fac is not None else None)
        c.sums[k] = so
        c.sum_by_decl[d.name()] = so
        c.keep.extend(tt)
    so = c.sums[k]
    t = so.decl(*args)
    return z3.ToReal(t) if fac is None else t


class FunObj:
    """application of an uninterpreted functional of sequences"""

    def __init__(self, name, decl, ndecl, params, arrays):
        self.name, self.decl, self.ndecl = name, decl, ndecl
        self.params = params      # canonical outer variables
        self.arrays = arrays      # [(n, elem(OWN), nan(OWN))]

    def inst(self, args):
        subs = list(zip(self.params, args[:len(self.params)]))
        sub = (lambda t: z3.substitute(t, *subs)) if subs else (lambda t: t)
        return [(sub(n), sub(e), sub(q)) for n, e, q in self.arrays], args[len(self.params):]


def FUNCTIONAL(name, arrays, scalars):
    """SNum: an unknown but fixed function of the given sequences and scalars."""
    c = cur()
    with bound() as I:
        tt = []
        for a in arrays:
            v = num(a.at(I))
            tt += [z3.simplify(a.n), z3.simplify(to_real(v.t)), z3.simplify(v.nan)]
        # the value of a NaN element does not matter
        for j in range(1, len(tt), 3):
            if not is_false(tt[j + 1]):
                tt[j] = z3.simplify(z3.If(tt[j + 1], z3.RealVal(0), tt[j]))
        tt, params, args = abstract(tt, I)
    key = (name, len(scalars)) + tuple(t.get_id() for t in tt)
    if key not in c.funs:
        nm = c.fresh_name("F_" + name)
        sorts = [z3.IntSort()] * len(params) + [z3.RealSort(), z3.BoolSort()] * len(scalars)
        d = z3.Function(nm, *sorts, z3.RealSort())
        dn = z3.Function(nm + "_nan", *sorts, z3.BoolSort())
        fo = FunObj(name, d, dn, params, [tuple(tt[j:j + 3]) for j in range(0, len(tt), 3)])
        c.funs[key] = fo
        c.fun_by_decl[nm] = fo
        c.keep.extend(tt)
    fo = c.funs[key]
    sc = []
    for x in scalars:
        x = num(x)
        sc += [z3.If(x.nan, z3.RealVal(0), to_real(x.t)) if not is_false(x.nan) else to_real(x.t), x.nan]
    sc = [z3.simplify(t) for t in sc]
    return SNum(fo.decl(*args, *sc), fo.ndecl(*args, *sc))


def COUNT(n, body):
    """Int term: number of indices with body(i) true."""
    t = SUM(n, lambda i: z3.If(body(i), z3.RealVal(1), z3.RealVal(0)))
    t = z3.simplify(t)
    return real_to_int(t)


def real_to_int(t):
    """Int term of a Real term that is syntactically integral."""
    t = z3.simplify(t)
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1:
        return z3.IntVal(t.numerator_as_long())
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        ch = [real_to_int(a) for a in t.children()]
        r = ch[0]
        if k == z3.Z3_OP_UMINUS:
            return -r
        for a in ch[1:]:
            r = r + a if k == z3.Z3_OP_ADD else (r * a if k == z3.Z3_OP_MUL else r - a)
        return z3.simplify(r)
    if k == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), real_to_int(t.arg(1)), real_to_int(t.arg(2)))
    return z3.ToInt(t)


def EXISTS(n, body):
    """Bool term: some 0<=i<n with body(i)."""
    c = cur()
    n = z3.simplify(n)
    if z3.is_int_value(n) and n.as_long() <= 12:
        return s_or(*[body(z3.IntVal(i)) for i in range(max(0, n.as_long()))])
    with bound(n) as I:
        e = z3.simplify(body(I))
        if z3.is_false(e):
            return FALSE
        if z3.is_true(e):
            return n > 0
        conj = _conjuncts([e])
        if conj is None:
            return FALSE
        pb = _pullback(n, I, conj, None)
        if pb is None:
            return FALSE
        n, conj, _ = pb
        g = z3.simplify(s_and(*conj))
        if z3.is_true(g):
            return n > 0
        if not contains(g, I):
            return s_and(n > 0, g)
        (n, g), params, args = abstract([n, g], I)
        I = OWN
        key = (n.get_id(), g.get_id())
        if key not in c.exists:
            d = z3.Function(c.fresh_name("ex"), *([z3.IntSort()] * len(params)), z3.BoolSort())
            w = z3.Function(c.fresh_name("wit"), *([z3.IntSort()] * len(params)), z3.IntSort())
            c.exists[key] = (d, w, params, n, I, g)
            c.keep.extend([n, g])
            trig = _trig_names(g, I)
            np_ = len(params)

            def f_wit(*ps, d=d, w=w, params=params, n=n, I=I, g=g):
                sub = list(zip(params, ps))
                ww = w(*ps)
                nn = z3.substitute(n, *sub) if sub else n
                gg = z3.substitute(g, *(sub + [(I, ww)]))
                return z3.Implies(d(*ps), z3.And(ww >= 0, ww < nn, gg))

            def f_all(*ps, d=d, params=params, n=n, I=I, g=g):
                i = ps[-1]
                ps = ps[:-1]
                sub = list(zip(params, ps))
                nn = z3.substitute(n, *sub) if sub else n
                gg = z3.substitute(g, *(sub + [(I, i)]))
                return z3.Implies(z3.And(i >= 0, i < nn, gg), d(*ps))
            if np_ == 0:
                c.fact(f_wit, 0, label="exists-witness")
                c.fact(f_all, 1, trig or None, label="exists-intro")
            else:
                c.fact(f_wit, np_, {d.name()}, label="exists-witness")
                c.fact(f_all, np_ + 1, [{d.name()}] * np_ + [trig or None], label="exists-intro")
        return c.exists[key][0](*args)


def FIRST(lo, n, body):
    """Int term: the first lo<=i<n with body(i); n if there is none (lo >= 0)."""
    c = cur()
    n, lo = z3.simplify(n), z3.simplify(lo)
    with bound(n) as I:
        e = z3.simplify(body(I))
        (lo, n, g), params, args = abstract([lo, n, e], I)
        I = OWN
        key = (lo.get_id(), n.get_id(), g.get_id())
        if key not in c.firsts:
            np_ = len(params)
            d = z3.Function(c.fresh_name("first"), *([z3.IntSort()] * np_), z3.IntSort())
            c.firsts[key] = d
            c.keep.extend([lo, n, g])
            trig = _trig_names(g, I)

            def f_w(*ps):
                sub = list(zip(params, ps))
                F = d(*ps)
                s = (lambda t: z3.substitute(t, *(sub + [(I, F)])))
                return z3.Or(F == s(n), z3.And(F >= s(lo), F < s(n), s(g)))

            def f_a(*ps):
                i = ps[-1]
                ps = ps[:-1]
                sub = list(zip(params, ps))
                s = (lambda t: z3.substitute(t, *(sub + [(I, i)])))
                return z3.Implies(z3.And(i >= s(lo), i < s(n), s(g)), d(*ps) <= i)
            if np_ == 0:
                c.fact(f_w, 0, label="first-witness")
                c.fact(f_a, 1, trig or None, label="first-least")
            else:
                c.fact(f_w, np_, {d.name()}, label="first-witness")
                c.fact(f_a, np_ + 1, [{d.name()}] * np_ + [trig or None], label="first-least")
        return c.firsts[key](*args)


def FORALL_T(n, body):
    return s_not(EXISTS(n, lambda i: s_not(body(i))))


def _trig_names(t, I):
    """names of the functions applied to I itself; for f(c + I) or f(c - I) the triple
    (f, c, sign), so that the argument determines I"""
    out, other = set(), set()
    for x in walk([t]):
        if not (z3.is_app(x) and x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        nm = x.decl().name()
        for a in x.children():
            if a.sort() != z3.IntSort() or not contains(a, I):
                continue
            if a.eq(I):
                out.add(nm)
                continue
            c0 = z3.simplify(z3.substitute(a, (I, z3.IntVal(0))))
            done = False
            for sg in (1, -1):
                if z3.simplify(a - c0 - sg * I).eq(z3.IntVal(0)):
                    if any(y.decl().name().startswith("%") for y in walk([c0]) if z3.is_app(y)):
                        break
                    out.add((nm, c0, sg))
                    done = True
                    break
            if not done:
                other.add(nm)
    return out or other


def _pull_factor(e, I):
    """e = fac * g with fac > 0 free of I; g as an Int term where possible"""
    if e.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.RealVal(1), e.arg(0)
    p = poly(e)
    if not p or len(p) != 1:
        return None
    (c, fs), = p.values()
    out = [f for f, x in fs.values() if x > 0 and not contains(f, I) and positive(f)]
    if not out or c <= 0:
        return None
    rest = {i: [f, x] for i, (f, x) in fs.items() if not any(f.eq(o) for o in out)}
    if not rest:
        return None
    fac = z3.RealVal(c)
    for f in out:
        for _ in range(fs[f.get_id()][1]):
            fac = fac * f
    g = unpoly({0: (fractions.Fraction(1), rest)})
    if g.decl().kind() == z3.Z3_OP_TO_REAL:
        g = g.arg(0)
    return fac, g


def EXTREMUM(n, body, which):
    """Real/Int term of the min/max over [0,n) (unspecified when n<=0)."""
    c = cur()
    n = z3.simplify(n)
    if z3.is_int_value(n) and 1 <= n.as_long() <= 12:
        r = body(z3.IntVal(0))
        for i in range(1, n.as_long()):
            x = body(z3.IntVal(i))
            r = z3.If(x < r if which == "min" else x > r, x, r)
        return r
    with bound(n) as I:
        e = z3.simplify(body(I))
        if not contains(e, I):
            return e
        pulled = _pull_factor(e, I) if e.sort() == z3.RealSort() else None
        off = None
        if pulled is None and e.sort() == z3.RealSort():
            p = poly(e)
            if p and len(p) > 1:
                dep = {k: v for k, v in p.items() if any(contains(f, I) for f, _ in v[1].values())}
                if len(dep) == 1:
                    off = unpoly({k: v for k, v in p.items() if k not in dep})
                    pulled = _pull_factor(unpoly(dep), I) or (z3.RealVal(1), unpoly(dep))
    if pulled is not None:
        fac, _ = pulled
        if off is not None:
            r = EXTREMUM(n, lambda i: z3.substitute(pulled[1], (I, i)), which)
            return z3.simplify(off + fac * to_real(r))

        def inner(i):
            return z3.substitute(pulled[1], (I, i))
        r = EXTREMUM(n, inner, which)
        return z3.simplify(fac * to_real(r))
    with bound(n) as I:
        pb = _pullback(n, I, [], e)
        guard = TRUE
        if pb is not None:
            n, conj, e = pb
            guard = s_and(*conj) if conj else TRUE
        (n, guard, e), params, args = abstract([n, guard, e], I)
        I = OWN
        key = (which, n.get_id(), guard.get_id(), e.get_id())
        if key not in c.mins:
            np_ = len(params)
            d = z3.Function(c.fresh_name(which), *([z3.IntSort()] * np_), e.sort())
            w = z3.Function(c.fresh_name("arg" + which), *([z3.IntSort()] * np_), z3.IntSort())
            c.mins[key] = (d, w, params, n, I, guard, e)
            c.keep.extend([n, guard, e])
            trig = _trig_names(e, I) | _trig_names(guard, I)
            if z3.is_true(guard):
                nonempty = n > 0
            elif params:
                raise Unsupported("extremum over a filter depending on an outer variable")
            else:
                nonempty = EXISTS(n, lambda i, guard=guard, I=I: z3.substitute(guard, (I, i)))

            def f_w(*ps):
                sub = list(zip(params, ps))
                ww = w(*ps)
                s = (lambda t: z3.substitute(t, *(sub + [(I, ww)])))
                ne = z3.substitute(nonempty, *sub) if sub else nonempty
                return z3.Implies(ne, z3.And(ww >= 0, ww < s(n), s(guard), s(e) == d(*ps)))

            def f_a(*ps):
                i = ps[-1]
                ps = ps[:-1]
                sub = list(zip(params, ps))
                s = (lambda t: z3.substitute(t, *(sub + [(I, i)])))
                rel = d(*ps) <= s(e) if which == "min" else d(*ps) >= s(e)
                return z3.Implies(z3.And(i >= 0, i < s(n), s(guard)), rel)
            if np_ == 0:
                c.fact(f_w, 0, label=which + "-witness")
                c.fact(f_a, 1, trig or None, label=which + "-bound")
            else:
                c.fact(f_w, np_, {d.name()}, label=which + "-witness")
                c.fact(f_a, np_ + 1, None, label=which + "-bound")
        return c.mins[key][0](*args)


class IndexMap:
    """src: [0,n) -> [0,base_n); mask for filters, None for permutations."""

    def __init__(self, decl, n, base_n, mask, inv):
        self.decl = decl
        self.n = n
        self.base_n = base_n
        self.mask = mask
        self.inv = inv


def _unrank(m, vf, i):
    """vf at the rank of a member i; m.src(rank(i)) is i"""
    v = vf(m.inv(i))
    sub = (m.decl(m.inv(i)), i)
    if isinstance(v, SNum):
        return SNum(z3.substitute(v.t, sub), z3.substitute(bool_term(SBool(v.nan)), sub))
    if isinstance(v, SBool):
        return SBool(z3.substitute(v.t, sub))
    return v


def FILTER(n, maskfn):
    """IndexMap of the increasing enumeration of {i<n | mask(i)}."""
    c = cur()
    n = z3.simplify(n)
    with bound(n) as I:
        g = z3.simplify(z3.substitute(z3.simplify(maskfn(I)), (I, OWN)))
    I = OWN
    if contains_any_canonical(g, I) or contains_any_canonical(n, I):
        raise Unsupported("filter depending on an outer bound variable")
    key = (n.get_id(), g.get_id())
    if key in c.filters:
        return c.filters[key]
    # a semantically equal filter already made on this path is the same filter
    for (nid, gid), m in list(c.filters.items()):
        if not m.base_n.eq(n) and not c.must(m.base_n == n):
            continue
        k = z3.Int("flt!k")
        if c.engine.feasible(c, z3.And(k >= 0, k < n, z3.substitute(g, (I, k)) != m.mask(k)), strong=True) is False:
            c.filters[key] = m
            c.keep.extend([n, g])
            return m
    cnt = COUNT(n, lambda i: z3.substitute(g, (I, i)))
    src = c.func("src", z3.IntSort(), z3.IntSort())
    rank = c.func("rank", z3.IntSort(), z3.IntSort())
    mask = (lambda i, g=g, I=I: z3.substitute(g, (I, i)))
    m = IndexMap(src, cnt, n, mask, rank)
    c.maps[src.name()] = m
    c.filters[key] = m
    c.keep.extend([n, g, cnt])
    c.assume(z3.And(cnt >= 0, z3.Implies(n >= 0, cnt <= n)))
    c.fact(lambda j: z3.Implies(z3.And(j >= 0, j < cnt),
                                z3.And(src(j) >= 0, src(j) < n, mask(src(j)),
                                       rank(src(j)) == j, src(j) >= j)),
           1, {src.name()}, "filter-src")
    trig = _trig_names(g, I) | {rank.name()}
    c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < n, mask(i)),
                                z3.And(rank(i) >= 0, rank(i) < cnt, src(rank(i)) == i)),
           1, trig, "filter-rank")
    c.fact(lambda j, k: z3.Implies(z3.And(j >= 0, k >= 0, j < cnt, k < cnt),
                                   (j < k) == (src(j) < src(k))),
           2, {src.name()}, "filter-mono")
    c.note_external("numpy boolean indexing / nonzero: increasing enumeration of the true positions")
    return m


def contains_any_canonical(t, own):
    return bool(canonical_vars(t, own))


def ARGSORT(n, keyfn):
    """Permutation p of [0,n) with key(p(.)) ascending."""
    c = cur()
    n = z3.simplify(n)
    with bound(n) as I:
        e = z3.simplify(z3.substitute(z3.simplify(keyfn(I)), (I, OWN)))
    I = OWN
    if contains_any_canonical(e, I) or contains_any_canonical(n, I):
        raise Unsupported("sorting depending on an outer bound variable")
    key = (n.get_id(), e.get_id())
    if key in c.perms:
        return c.perms[key]
    p = c.func("perm", z3.IntSort(), z3.IntSort())
    q = c.func("pinv", z3.IntSort(), z3.IntSort())
    m = IndexMap(p, n, n, None, q)
    m.key = (lambda i: z3.substitute(e, (I, i)))
    c.maps[p.name()] = m
    # the inverse is a permutation too
    mi = IndexMap(q, n, n, None, p)
    c.maps[q.name()] = mi
    c.perms[key] = m
    c.keep.extend([n, e])
    c.fact(lambda j: z3.Implies(z3.And(j >= 0, j < n),
                                z3.And(p(j) >= 0, p(j) < n, q(p(j)) == j)),
           1, {p.name()}, "perm")
    c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < n),
                                z3.And(q(i) >= 0, q(i) < n, p(q(i)) == i)),
           1, {q.name()} | _trig_names(e, I), "perm-inv")
    c.fact(lambda j, k: z3.Implies(z3.And(j >= 0, j < k, k < n),
                                   z3.substitute(e, (I, p(j))) <= z3.substitute(e, (I, p(k)))),
           2, {p.name()}, "perm-sorted")
    c.note_external("numpy argsort/sort: a permutation that orders the keys (ties in any order)")
    return m


# --------------------------------------------------------------------------
# arrays

class SArr:
    """One-dimensional symbolic array (or list, if is_list)."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n, fn, kind="f", is_list=False, label=None):
        self.n = z3.simplify(n) if not isinstance(n, int) else z3.IntVal(n)
        self._fn = fn
        self.kind = kind
        self.is_list = is_list
        self.label = label
        self.base = None       # (SArr, offset term, step) for views
        self.imap = None       # index map this array enumerates (idx of nonzero, argsort)
        self._memo = {}

    # -- element access
    def at(self, i):
        """element at Int term i, current storage"""
        if self.base is not None:
            b, off, step = self.base
            return b.at(z3.simplify(off + step * i))
        k = i.get_id()
        hit = self._memo.get(k)
        if hit is not None and hit[0].eq(i):
            return hit[1]
        v = self._fn(i)
        self._memo[k] = (i, v)
        return v

    def snap(self):
        """closure over the current contents"""
        if self.base is not None:
            b, off, step = self.base
            f = b.snap()
            return lambda i: f(z3.simplify(off + step * i))
        fn = self._fn
        memo = self._memo

        def g(i):
            k = i.get_id()
            hit = memo.get(k)
            if hit is not None and hit[0].eq(i):
                return hit[1]
            v = fn(i)
            memo[k] = (i, v)
            return v
        return g

    def store(self, newfn):
        """replace the contents (closure over indices)"""
        if self.base is not None:
            b, off, step = self.base
            old = b.snap()
            n = self.n

            def fn(k):
                j = z3.simplify((k - off) * step)  # step is +-1
                return ite_val(SBool(s_and(j >= 0, j < n)), lambda: newfn(j), lambda: old(k))
            b.store(fn)
            return
        if self.label is not None:
            cur().writes.append(self.label)
        self._fn = newfn
        self._memo = {}

    # -- shape
    @property
    def shape(self): return (SNum(self.n),)
    @property
    def size(self): return SNum(self.n)
    @property
    def ndim(self): return 1
    @property
    def T(self): return self
    @property
    def values(self): return self
    @property
    def dtype(self):
        return np.dtype({"f": float, "i": int, "b": bool}.get(self.kind, object))

    def __len__(self):
        t = z3.simplify(self.n)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("len() of a symbolic array by library code")

    def __bool__(self):
        if self.is_list:
            return cur().decide(self.n > 0)
        raise Unsupported("truth value of an array")

    def __iter__(self):
        t = z3.simplify(self.n)
        if z3.is_int_value(t) and t.as_long() <= 64:
            return iter([self.at(z3.IntVal(i)) for i in range(t.as_long())])
        raise Unsupported("iteration over a symbolic array outside a cut loop")

    def __repr__(self): return "<symbolic array>"
    def __format__(self, s): return "<symbolic array>"
    __hash__ = object.__hash__

    # -- indexing
    def _index(self, i):
        """normalise a scalar index; returns Int term (may raise IndexError)."""
        i = num(i)
        if not i.is_int:
            raise IndexError("only integers are valid indices")
        t = z3.simplify(i.t)
        if not cur().decide(z3.And(t < self.n, t >= -self.n), "index in bounds"):
            raise IndexError("index out of bounds")
        if z3.is_int_value(t):
            return t if t.as_long() >= 0 else z3.simplify(self.n + t)
        if cur().must(t >= 0):
            return t
        return s_ite(t < 0, self.n + t, t)

    def _slice(self, s):
        step = s.step
        if step is not None and isinstance(step, SNum):
            raise Unsupported("symbolic slice step")
        c = cur()
        n = self.n
        if step in (None, 1):
            lo = self._clamp(s.start, z3.IntVal(0))
            hi = self._clamp(s.stop, n)
            ln = z3.simplify(hi - lo)
            if not c.must(ln >= 0):
                ln = s_ite(ln >= 0, ln, z3.IntVal(0))
            return lo, 1, ln
        if step == -1 and s.start is None and s.stop is None:
            return z3.simplify(n - 1), -1, n
        raise Unsupported(f"slice step {step}")

    def _clamp(self, v, default):
        if v is None:
            return default
        v = num(v)
        t = z3.simplify(v.t)
        c = cur()
        if not v.is_int:
            raise TypeError("slice indices must be integers")
        if z3.is_int_value(t):
            k = t.as_long()
            if k >= 0:
                return t if c.must(self.n >= k) else s_ite(self.n >= k, t, self.n)
            e = z3.simplify(self.n + t)
            return e if c.must(e >= 0) else s_ite(e >= 0, e, z3.IntVal(0))
        if c.must(t >= 0):
            return t if c.must(t <= self.n) else s_ite(t <= self.n, t, self.n)
        e = s_ite(t < 0, self.n + t, t)
        return s_ite(e < 0, z3.IntVal(0), s_ite(e > self.n, self.n, e))

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if len(k) == 1:
                return self[k[0]]
            raise Unsupported("multi-dimensional index")
        if isinstance(k, slice):
            off, step, ln = self._slice(k)
            if self.is_list:
                f = self.snap()
                return SArr(ln, lambda i: f(z3.simplify(off + step * i)), self.kind, True)
            r = SArr(ln, None, self.kind)
            r.base = (self, off, step)
            return r
        if isinstance(k, list):
            k = lift(k)
        if isinstance(k, np.ndarray):
            k = lift(k)
        if isinstance(k, SArr):
            f = self.snap()
            if k.kind == "b":
                self._same_len(k, "boolean index did not match")
                kf = k.snap()
                m = FILTER(self.n, lambda i: bool_term(kf(i)))
                return self._through(m, f)
            if k.imap is not None and k.imap.base_n.eq(self.n) and k.imap_pure:
                return self._through(k.imap, f)
            kf = k.snap()
            n = self.n
            c = cur()
            ok = FORALL_T(k.n, lambda i: z3.And(num(kf(i)).t >= -n, num(kf(i)).t < n))
            if not c.decide(ok, "fancy index in bounds"):
                raise IndexError("index out of bounds")
            nonneg = c.must(FORALL_T(k.n, lambda i: num(kf(i)).t >= 0))

            def fn(i):
                j = num(kf(i)).t
                if not nonneg:
                    j = s_ite(j < 0, n + j, j)
                return f(z3.simplify(j))
            return SArr(k.n, fn, self.kind)
        if is_scalar(k):
            return self.at(self._index(k))
        raise Unsupported(f"index of type {type(k).__name__}")

    def _through(self, m, f):
        r = SArr(m.n, lambda i: f(m.decl(i)), self.kind)
        return r

    def _same_len(self, o, msg):
        if not cur().decide(self.n == o.n, "equal lengths"):
            raise IndexError(msg)

    def __setitem__(self, k, v):
        old = self.snap()
        if isinstance(k, slice):
            off, step, ln = self._slice(k)
            view = SArr(ln, None, self.kind)
            view.base = (self, off, step)
            if isinstance(v, (SArr, list, np.ndarray)):
                v = lift(v)
                if not cur().decide(v.n == ln, "assigned length"):
                    raise ValueError("could not broadcast")
                vf = v.snap()
                view.store(lambda i: self._cast(vf(i)))
            else:
                view.store(lambda i: self._cast(v))
            return
        if isinstance(k, (list, np.ndarray)):
            k = lift(k)
        if isinstance(k, SArr):
            if k.kind == "b":
                self._same_len(k, "boolean index did not match")
                kf = k.snap()
                if isinstance(v, (SArr, list, np.ndarray)):
                    v = lift(v)
                    m = FILTER(self.n, lambda i: bool_term(kf(i)))
                    if not cur().decide(v.n == m.n, "assigned length"):
                        raise ValueError("cannot assign input values")
                    vf = v.snap()
                    self.store(lambda i: ite_val(kf(i), lambda: self._cast(_unrank(m, vf, i)), lambda: old(i)))
                else:
                    self.store(lambda i: ite_val(kf(i), lambda: self._cast(v), lambda: old(i)))
                return
            m = k.imap
            if m is not None and k.imap_pure and m.base_n.eq(self.n):
                inside = m.mask if m.mask is not None else (lambda i: TRUE)
                if isinstance(v, (SArr, list, np.ndarray)):
                    vf = lift(v).snap()
                    self.store(lambda i: ite_val(SBool(inside(i)), lambda: self._cast(_unrank(m, vf, i)), lambda: old(i)))
                else:
                    self.store(lambda i: ite_val(SBool(inside(i)), lambda: self._cast(v), lambda: old(i)))
                return
            raise Unsupported("fancy assignment")
        if is_scalar(k):
            j = self._index(k)
            v = self._cast(v)
            self.store(lambda i: ite_val(SBool(z3.simplify(i == j)), lambda: v, lambda: old(i)))
            return
        raise Unsupported(f"assignment index {type(k).__name__}")

    def _cast(self, v):
        if self.is_list or self.kind == "o":
            return v
        if self.kind == "b":
            return SBool(bool_term(v))
        if self.kind == "i":
            return to_int(v)
        if v is None:
            return SNum(z3.RealVal(0), TRUE)
        x = num(v)
        return SNum(to_real(x.t), x.nan)

    @property
    def imap_pure(self):
        return True

    # -- methods
    def copy(self):
        r = SArr(self.n, self.snap(), self.kind, self.is_list)
        r.imap = self.imap
        return r

    def astype(self, ty, copy=True, errors=None):
        f = self.snap()
        if ty in (int, np.int64, "int", np.intp):
            return SArr(self.n, lambda i: to_int(f(i)), "i")
        if ty in (float, np.float64, "float"):
            def g(i):
                x = num(f(i))
                return SNum(to_real(x.t), x.nan)
            return SArr(self.n, g, "f")
        if ty in (bool, np.bool_, "bool"):
            return SArr(self.n, lambda i: SBool(bool_term(f(i))), "b")
        raise Unsupported(f"astype({ty})")

    def tolist(self):
        r = self.copy()
        r.is_list = True
        return r
    to_list = tolist

    def to_numpy(self, *a, **k):
        return self

    def nonzero(self):
        f = self.snap()
        m = FILTER(self.n, lambda i: bool_term(f(i)))
        r = SArr(m.n, lambda j: SNum(m.decl(j)), "i")
        r.imap = m
        return (r,)

    def sum(self, axis=None): return arr_sum(self)
    def mean(self, axis=None): return arr_mean(self)
    def min(self, axis=None): return arr_ext(self, "min")
    def max(self, axis=None): return arr_ext(self, "max")
    def any(self, axis=None): return arr_any(self)
    def all(self, axis=None): return arr_all(self)
    def argmax(self, axis=None): return arr_argext(self, "max")
    def argmin(self, axis=None): return arr_argext(self, "min")
    def cumsum(self): return arr_cumsum(self)

    def std(self, axis=None, ddof=0): return arr_std(self, ddof)

    def append(self, v):
        if not self.is_list:
            raise AttributeError("append")
        if self.label is not None:
            cur().writes.append(self.label)
        old, n = self.snap(), self.n
        self._fn = lambda i: ite_val(SBool(z3.simplify(i == n)), lambda: v, lambda: old(i))
        self._memo = {}
        self.n = z3.simplify(n + 1)

    def pop(self, k=-1):
        if not self.is_list or k not in (-1, 0):
            raise Unsupported("pop")
        if self.label is not None:
            cur().writes.append(self.label)
        if not cur().decide(self.n > 0, "pop from non-empty list"):
            raise IndexError("pop from empty list")
        old, n = self.snap(), self.n
        self.n = z3.simplify(n - 1)
        self._memo = {}
        if k == 0:
            self._fn = lambda i: old(z3.simplify(i + 1))
            return old(z3.IntVal(0))
        self._fn = old
        return old(z3.simplify(n - 1))

    # -- operators are attached below


def ite_val(c, a, b):
    """lazy if-then-else on element values (a, b are thunks)"""
    ct = z3.simplify(bool_term(c))
    if z3.is_true(ct):
        return a()
    if z3.is_false(ct):
        return b()
    return merge(ct, a(), b())


def merge(ct, x, y):
    if x is y:
        return x
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        return tuple(merge(ct, p, q) for p, q in zip(x, y))
    if isinstance(x, SArr) or isinstance(y, SArr):
        x, y = lift(x), lift(y)
        fx, fy = x.snap(), y.snap()
        return SArr(s_ite(ct, x.n, y.n), lambda i: merge(ct, fx(i), fy(i)), x.kind, x.is_list)
    return ite(SBool(ct), x, y)


def lift(x):
    """python/numpy sequence -> SArr"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim != 1:
            raise Unsupported("concrete array of dimension != 1 mixed with symbolic values")
        kind = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind)
        if kind is None:
            raise Unsupported(f"dtype {x.dtype}")
        vals = [v for v in x]
    elif isinstance(x, (list, tuple)):
        vals = list(x)
        kind = "f"
        if vals and all(isinstance(v, (bool, np.bool_, SBool)) for v in vals):
            kind = "b"
        elif vals and all(isinstance(v, (int, np.integer)) or (isinstance(v, SNum) and v.is_int) for v in vals):
            kind = "i"
        elif vals and not all(is_scalar(v) for v in vals):
            kind = "o"
    else:
        raise Unsupported(f"cannot treat {type(x).__name__} as an array")
    if kind == "b":
        vals = [SBool(bool_term(v)) for v in vals]
    elif kind == "i":
        vals = [num(v) for v in vals]
    elif kind == "f":
        vals = [SNum(to_real(num(v).t), num(v).nan) for v in vals]

    def fn(i):
        s = z3.simplify(i)
        if z3.is_int_value(s) and 0 <= s.as_long() < len(vals):
            return vals[s.as_long()]
        if not vals:
            return SNum(z3.RealVal(0))
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = merge(z3.simplify(s == j), vals[j], r)
        return r
    return SArr(z3.IntVal(len(vals)), fn, kind, isinstance(x, list))


def elementwise(fn, a, b=None, kind=None):
    """apply a scalar operation elementwise with numpy broadcasting of scalars"""
    if b is None:
        f = a.snap()
        g = lambda i: fn(f(i))
        n = a.n
    else:
        if isinstance(a, SArr) and isinstance(b, SArr):
            if not a.n.eq(b.n):
                if not cur().decide(a.n == b.n, "operands have equal length"):
                    raise ValueError("operands could not be broadcast together")
            fa, fb = a.snap(), b.snap()
            g = lambda i: fn(fa(i), fb(i))
            n = a.n
        elif isinstance(a, SArr):
            fa = a.snap()
            g = lambda i: fn(fa(i), b)
            n = a.n
        else:
            fb = b.snap()
            g = lambda i: fn(a, fb(i))
            n = b.n
    if kind is None:
        ka = a.kind if isinstance(a, SArr) else _skind(a)
        kb = ka if b is None else (b.kind if isinstance(b, SArr) else _skind(b))
        kind = "i" if ka in "ib" and kb in "ib" else "f"
    return SArr(n, g, kind)


def _skind(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, SNum):
        return "i" if x.is_int else "f"
    return "f"


def _binop(fn, kind=None, swap=False):
    def op(self, o):
        if self.is_list:
            return _list_op(self, o, fn, swap)
        if isinstance(o, (list, tuple, np.ndarray)) and not (isinstance(o, np.ndarray) and o.ndim == 0):
            o = lift(o)
        if isinstance(o, SArr) or is_scalar(o):
            a, b = (o, self) if swap else (self, o)
            k = kind
            return elementwise(fn, a, b, k)
        if o is None:
            raise TypeError("unsupported operand")
        return NotImplemented
    return op


def _list_op(a, o, fn, swap):
    if fn is _A["add"] and not swap and isinstance(o, (list, SArr)):
        return list_concat(a, lift(o))
    raise Unsupported("arithmetic on a list")


def list_concat(a, b):
    fa, fb, na = a.snap(), b.snap(), a.n
    return SArr(a.n + b.n, lambda i: ite_val(SBool(i < na), lambda: fa(i), lambda: fb(z3.simplify(i - na))),
                a.kind if a.kind == b.kind else "f", a.is_list)


_A = {
    "add": lambda a, b: num(a) + num(b),
    "sub": lambda a, b: num(a) - num(b),
    "mul": lambda a, b: num(a) * num(b),
    "div": lambda a, b: num(a) / num(b),
    "floordiv": lambda a, b: num(a) // num(b),
    "mod": lambda a, b: num(a) % num(b),
    "pow": lambda a, b: num(a) ** num(b),
}
for _nm, _py in [("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "truediv"),
                 ("floordiv", "floordiv"), ("mod", "mod"), ("pow", "pow")]:
    _k = "f" if _nm == "div" else None
    setattr(SArr, f"__{_py}__", _binop(_A[_nm], _k))
    setattr(SArr, f"__r{_py}__", _binop(_A[_nm], _k, True))

    def _mk(nm):
        f = _A[nm]

        def iop(self, o):
            if self.is_list:
                raise Unsupported("in-place list arithmetic")
            if isinstance(o, (list, tuple)) or _is_arraylike(o):
                o = lift(o)
            r = elementwise(f, self, o)
            rf = r.snap()
            self.store(lambda i: self._cast(rf(i)))
            return self
        return iop
    setattr(SArr, f"__i{_py}__", _mk(_nm))


def _boolop(fn):
    return lambda a, b: SBool(fn(bool_term(a), bool_term(b)))


SArr.__and__ = _binop(_boolop(s_and), "b")
SArr.__rand__ = SArr.__and__
SArr.__or__ = _binop(_boolop(s_or), "b")
SArr.__ror__ = SArr.__or__
SArr.__xor__ = _binop(lambda a, b: SBool(z3.Xor(bool_term(a), bool_term(b))), "b")


def _inv(self):
    if self.kind != "b":
        raise Unsupported("~ on a non-boolean array")
    return elementwise(lambda a: SBool(s_not(bool_term(a))), self, kind="b")


SArr.__invert__ = _inv
SArr.__neg__ = lambda self: elementwise(lambda a: -num(a), self)
SArr.__abs__ = lambda self: elementwise(lambda a: abs(num(a)), self)


def _cmpop(op):
    def f(self, o):
        if self.is_list and op in ("eq", "ne"):
            raise Unsupported("list comparison")
        if isinstance(o, (list, tuple)) or _is_arraylike(o):
            o = lift(o)
        if isinstance(o, SArr) or is_scalar(o):
            def g(a, b):
                if op in ("eq", "ne") and isinstance(a, SBool):
                    r = a == b
                    return r if op == "eq" else ~r
                return getattr(num(a), f"__{op}__")(b if is_scalar(b) else num(b))
            return elementwise(g, self, o, "b")
        return NotImplemented
    return f


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    setattr(SArr, f"__{_op}__", _cmpop(_op))


# -- reductions on arrays

def arr_sum(a):
    f = a.snap()
    t = SUM(a.n, lambda i: to_real(num(f(i)).t))
    nan = EXISTS(a.n, lambda i: num(f(i)).nan)
    if a.kind in "ib":
        return SNum(real_to_int(t), nan)
    return SNum(t, nan)


def arr_mean(a):
    f = a.snap()
    s = SUM(a.n, lambda i: to_real(num(f(i)).t))
    nan = s_or(EXISTS(a.n, lambda i: num(f(i)).nan), a.n <= 0)
    return SNum(s / z3.ToReal(a.n), z3.simplify(nan))


def arr_std(a, ddof=0):
    m = arr_mean(a)
    f = a.snap()
    s = SUM(a.n, lambda i: (to_real(num(f(i)).t) - m.t) * (to_real(num(f(i)).t) - m.t))
    nan = s_or(EXISTS(a.n, lambda i: num(f(i)).nan), a.n <= ddof)
    return sqrt(SNum(s / (z3.ToReal(a.n) - ddof), z3.simplify(nan)))


def arr_ext(a, which):
    f = a.snap()
    if not cur().decide(a.n > 0, "extremum of a non-empty array"):
        raise ValueError("zero-size array to reduction operation")
    nan = EXISTS(a.n, lambda i: num(f(i)).nan)
    t = EXTREMUM(a.n, lambda i: num(f(i)).t, which)
    return SNum(t, nan)


def arr_any(a):
    f = a.snap()
    return SBool(EXISTS(a.n, lambda i: bool_term(f(i))))


def arr_all(a):
    f = a.snap()
    return SBool(FORALL_T(a.n, lambda i: bool_term(f(i))))


def arr_argext(a, which):
    """first index of the extremum"""
    c = cur()
    f = a.snap()
    if not c.decide(a.n > 0, "argmax of a non-empty array"):
        raise ValueError("attempt to get argmax of an empty sequence")
    with bound(a.n) as I:
        v = num(f(I))
        e = z3.simplify(v.t)
        if not z3.is_false(z3.simplify(v.nan)):
            raise Unsupported("argmax with NaN")
        e = z3.simplify(z3.substitute(e, (I, OWN)))
    I = OWN
    if contains_any_canonical(e, I) or contains_any_canonical(a.n, I):
        raise Unsupported("argmax depending on an outer bound variable")
    key = (which, a.n.get_id(), e.get_id())
    if key not in c.argsel:
        k = c.int("arg" + which)
        n = a.n

        def el(i):
            return z3.substitute(e, (I, i))
        c.assume(z3.And(k >= 0, k < n))
        if which == "max":
            c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < n),
                                        z3.And(el(i) <= el(k), z3.Implies(i < k, el(i) < el(k)))),
                   1, _trig_names(e, I) or None, "argmax")
        else:
            c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < n),
                                        z3.And(el(i) >= el(k), z3.Implies(i < k, el(i) > el(k)))),
                   1, _trig_names(e, I) or None, "argmin")
        c.argsel[key] = k
        c.keep.append(e)
    return SNum(c.argsel[key])


def arr_cumsum(a):
    f = a.snap()

    def fn(i):
        t = SUM(z3.simplify(i + 1), lambda k: to_real(num(f(k)).t))
        nan = EXISTS(z3.simplify(i + 1), lambda k: num(f(k)).nan)
        return SNum(real_to_int(t) if a.kind in "ib" else t, nan)
    return SArr(a.n, fn, "i" if a.kind in "ib" else "f")


def sym_array(name, n, kind="f", nan=False, is_list=False, label=None):
    """fresh symbolic input array"""
    c = cur()
    sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
    d = c.func(name, z3.IntSort(), sort)
    if kind == "b":
        fn = lambda i: SBool(d(i))
    elif nan:
        dn = c.func(name + "_nan", z3.IntSort(), z3.BoolSort())
        fn = lambda i: SNum(d(i), dn(i))
    else:
        fn = lambda i: SNum(d(i))
    r = SArr(n, fn, kind, is_list, label)
    r.decl = d
    return r


def deep_symbolic(x, depth=4):
    if isinstance(x, (SNum, SBool, SArr)) or getattr(x, "_pyvc_symbolic", False):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(deep_symbolic(v, depth - 1) for v in x)
    if depth and isinstance(x, dict):
        return any(deep_symbolic(v, depth - 1) for v in x.values())
    return False
