"""Units (contracts on the real code), path exploration and discharge."""
import importlib
import json
import os
import time
import traceback

import numpy as np
import z3

from . import core, limits, prove
from .core import Ctx, PathEnd, SArr, SBool, SNum, Unsupported, bool_term, s_and, s_implies, s_not, s_or
from .spec import SYM, CON, _nt

UNITS = {}
STUBS = {}
ALWAYS = set()


def unit(uid, pids, functions=(), **opts):
    """Registers a contract.  The decorated class provides
         inputs(V)        the arguments (symbolic or drawn)
         pre(S, a)        list of assumptions on them
         raises(S, a)     list of (condition, exception class, name)
         run(a)           executes the real code
         post(P, S, a, r) the postconditions
    """
    def deco(cls):
        cls.uid, cls.pids, cls.functions = uid, list(pids), list(functions)
        for k, v in opts.items():
            setattr(cls, k, v)
        assert uid not in UNITS, uid
        UNITS[uid] = cls
        return cls
    return deco


class Unit:
    loops = {}
    uses = None            # stubs used (None: every registered one not covering its own functions)
    symbolic = True        # False: outside the verifier's reach, bounded stand-in only
    why_bounded = ""
    cases = 60             # concrete cases in the quick tier
    max_paths = 400
    split = {}             # {choice name: number of options}: verified as separate jobs
    budget = 20.0
    frame = True
    no_raise = True        # an exception not listed is a violation

    def inputs(self, V): return {}
    def pre(self, S, a): return []
    def raises(self, S, a): return []
    def post(self, P, S, a, r): pass


def stub(target, by=None, always=False):
    """Registers the contract used for calls of `target` from other functions.
    by: unit ids that prove it (none: an assumption)."""
    def deco(fn):
        STUBS[target] = (fn, list(by or []))
        if always:
            ALWAYS.add(target)
        return fn
    return deco


def resolve(target):
    mod, q = target.split(":")
    m = importlib.import_module(mod)
    o = m
    for p in q.split("."):
        o = getattr(o, p)
    return o


# --------------------------------------------------------------------------
# symbolic inputs

class SymV:
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx

    def choice(self, name, options):
        only = self.ctx.engine.only
        if name in only:
            k = only[name]
            if k >= len(options):
                raise PathEnd()
        else:
            k = self.ctx.choose(len(options), name)
        self.ctx.inputs.append((name, "choice", k, None, None))
        return options[k]

    def int(self, name, lo=None, upto=None, gen=None, hi=None):
        """upto bounds the drawn values only"""
        t = z3.Int(name)
        c = self.ctx
        if lo is not None:
            c.assume(t >= core.num(lo).t)
        if hi is not None:
            c.assume(t <= core.num(hi).t)
        c.inputs.append((name, "int", t, None, None))
        return SNum(t)

    def real(self, name, lo=None, hi=None, nan=False, gen=None, gt=None):
        t = z3.Real(name)
        c = self.ctx
        q = z3.Bool(name + "_nan") if nan else core.FALSE
        for b, op in ((lo, lambda x, y: x >= y), (hi, lambda x, y: x <= y), (gt, lambda x, y: x > y)):
            if b is not None:
                c.assume(core.s_or(q, op(t, core.to_real(core.num(b).t))))
        c.inputs.append((name, "real", t, q, None))
        return SNum(t, q)

    def bool(self, name):
        t = z3.Bool(name)
        self.ctx.inputs.append((name, "bool", t, None, None))
        return SBool(t)

    def arr(self, name, n, kind="f", nan=False, lo=None, hi=None, gen=None, is_list=False, label=True):
        nt = core.num(n).t
        c = self.ctx
        sort = {"f": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[kind]
        d = z3.Function(name, z3.IntSort(), sort)
        dn = z3.Function(name + "_nan", z3.IntSort(), z3.BoolSort()) if nan else None
        if kind == "b":
            fn = lambda i: SBool(d(i))
        elif nan:
            fn = lambda i: SNum(d(i), dn(i))
        else:
            fn = lambda i: SNum(d(i))
        r = SArr(nt, fn, kind, is_list, name if label else None)
        r.decl = d
        for b, op in ((lo, lambda x, y: x >= y), (hi, lambda x, y: x <= y)):
            if b is not None:
                bt = core.num(b).t
                bt = core.to_real(bt) if kind == "f" else bt
                c.fact(lambda i, op=op, bt=bt: z3.Implies(z3.And(i >= 0, i < nt), op(d(i), bt)), 1, {name}, "input range")
        c.inputs.append((name, "arr:" + kind + (":list" if is_list else ""), d, dn, nt))
        return r

    def mat(self, name, n, m, kind="f", gen=None):
        from .npshim import SMat
        d = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.ctx.inputs.append((name, "mat", d, None, (core.num(n).t, core.num(m).t)))
        return SMat(core.num(n).t, core.num(m).t, lambda i, j: SNum(d(i, j)), kind, name)

    def obj(self, name, sym, gen):
        """an input with a symbolic and a concrete form"""
        return sym()

    def concrete(self, name, value, gen):
        return value


class Post:
    """postcondition recorder, symbolic"""

    def __init__(self, ctx):
        self.ctx = ctx

    def check(self, name, cond):
        self.ctx.oblige(name, bool_term(cond), "post")

    def eq(self, name, actual, expected, **tol):
        for sub, g in SYM.eq_parts(actual, expected):
            self.ctx.oblige(name + sub, g, "post")

    def forall(self, name, n, f):
        self.ctx.oblige(name, core.arbitrary(_nt(n), lambda k: bool_term(f(SNum(k)))), "post")

    def lemma(self, name, cond):
        """proved here, available to the obligations that follow"""
        t = bool_term(cond)
        self.ctx.oblige("lemma " + name, t, "lemma")
        self.ctx.assume(t)

    def lemma_all(self, name, n, f):
        c = self.ctx
        nt = _nt(n)
        k = c.int("lem")
        sch = core.schema(nt, lambda i: bool_term(f(SNum(i))))
        c.oblige("lemma " + name, core.s_implies(s_and(k >= 0, k < nt), sch(k)), "lemma")
        c.fact(lambda i: z3.Implies(z3.And(i >= 0, i < nt), sch(i)), 1, None, "lemma " + name)

    def split_all(self, n, f, cond):
        """for every j: sum_i f(j,i) is the sum over the i with cond(j,i) plus the sum over the others"""
        c = self.ctx
        zero = SNum(z3.RealVal(0))
        part = lambda j, g: SYM.sum(n, lambda i: SYM.ite(g(i), f(j, i), zero))
        sch = core.schema(None, lambda t: bool_term(SYM.eq(
            SYM.sum(n, lambda i: f(SNum(t), i)),
            part(SNum(t), lambda i: cond(SNum(t), i)) + part(SNum(t), lambda i: SYM.not_(cond(SNum(t), i))))))
        c.fact(lambda j: sch(j), 1, None, "split of a sum")

    def induction(self, name, n, f):
        """f(0) and f(k) -> f(k+1) for k < n; then f(i) for 0 <= i <= n is available"""
        c = self.ctx
        nt = _nt(n)
        k = c.int("ind")
        sch = core.schema(None, lambda i: bool_term(f(SNum(i))))
        c.oblige(f"lemma {name}: base", sch(z3.IntVal(0)), "lemma")
        c.oblige(f"lemma {name}: step", core.s_implies(s_and(k >= 0, k < nt, sch(k)), sch(z3.simplify(k + 1))), "lemma")
        c.fact(lambda i: z3.Implies(z3.And(i >= 0, i <= nt), sch(i)), 1, None, "lemma " + name)
        c.assume(s_implies(nt >= 0, sch(nt)))


class Engine:
    def __init__(self, u, deadline, only=None):
        self.u = u
        self.only = only or {}
        self.deadline = deadline
        self.stack = []
        self.nfeas = 0
        self.feas_cache = {}
        self.entered = set()
        self.loops_used = set()
        self.stubs_used = set()

    def push(self, d):
        self.stack.append(d)

    def loop_spec(self, key, names):
        sp = self.u.loops.get((key[0].split(":")[1], key[1]))
        if sp is None:
            sp = self.u.loops.get(key[0].split(":")[1])
        if sp is None and hasattr(self.u, "loop_for"):
            sp = self.u.loop_for(key, names)
        if sp is not None:
            self.loops_used.add(key)
            sp = getattr(sp, "__func__", sp)
        return sp

    def feasible(self, ctx, t, strong=False, bound=False):
        if time.time() > self.deadline:
            raise Unsupported("time budget of the unit exhausted")
        self.nfeas += 1
        forms = []
        if bound or ctx.bound_ranges:
            subs = []
            for d, (v, n) in enumerate(ctx.bound_ranges):
                b = z3.Int(f"bnd!{d}")
                subs.append((v, b))
                if n is not None:
                    forms.append(z3.substitute(s_and(v >= 0, v < n), *subs))
            t = z3.substitute(t, *subs) if subs else t
        t = z3.simplify(t)
        if z3.is_false(t):
            return False
        ckey = (tuple(ctx.decisions[:ctx.pos]), len(ctx.pc), len(ctx.facts), t.get_id(), strong)
        if ckey in self.feas_cache:
            return self.feas_cache[ckey][1]
        r = self.feasible0(ctx, forms, t, strong)
        self.feas_cache[ckey] = (t, r)
        return r

    def feasible0(self, ctx, forms, t, strong):
        r, _ = prove._check(ctx.pc + forms + [t], 150)
        if r == z3.unsat:
            return False
        base = ctx.base_sat
        if base is None:
            base = ctx.base_sat = prove.Saturator(ctx)
            base.npc = 0
            base.max_gen = 2
        if base.npc < len(ctx.pc):
            base.add([z3.simplify(f) for f in ctx.pc[base.npc:]])
            base.npc = len(ctx.pc)
            for rd in range(2):
                base.add([z3.simplify(x) for x in prove.sum_basic(ctx, base.forms, base)], 1)
                if base.round(300) == 0:
                    break
        sat = base.clone()
        sat.add([z3.simplify(f) for f in forms] + [t])
        for rd in range(2):
            b = prove.sum_basic(ctx, sat.forms, sat)
            sat.add([z3.simplify(x) for x in b], 1)
            if sat.round(300) == 0:
                break
        ax, _ = prove.uf_axioms(sat.forms)
        r, _ = prove._check(sat.forms + ax, 400)
        if r == z3.unsat:
            return False
        if strong:
            st, _ = prove.Prover(ctx, 3.0).refute(ctx.pc + forms + [t], budget=3.0, depth=1)
            if st == "unsat":
                return False
        return True


def install_stubs():
    """Replace contracted functions in every loaded module by dispatchers."""
    import sys
    done = {}
    for target, (fn, by) in STUBS.items():
        real = resolve(target)
        d = make_dispatch(target, real, fn)
        mod, q = target.split(":")
        if "." in q:
            cls = resolve(mod + ":" + q.rsplit(".", 1)[0])
            setattr(cls, q.rsplit(".", 1)[1], d)
        else:
            done[id(real)] = (real, d)
    for name, m in list(sys.modules.items()):
        if name == "seismostats" or name.startswith("seismostats."):
            for k, v in list(vars(m).items()):
                if id(v) in done and done[id(v)][0] is v:
                    setattr(m, k, done[id(v)][1])


def make_dispatch(target, real, fn):
    import functools
    import inspect
    try:
        sig = inspect.signature(real)
    except (TypeError, ValueError):
        sig = None

    @functools.wraps(real)
    def dispatch(*a, **k):
        ctx = Ctx.cur
        if ctx is None:
            return real(*a, **k)
        eng = ctx.engine
        if target in eng.u.functions and target not in ctx.inside:
            # the function under verification: its body is executed once,
            # recursive calls go to its contract
            ctx.inside.add(target)
            return real(*a, **k)
        if eng.u.uses is not None and target not in eng.u.uses:
            return real(*a, **k)
        if target not in ALWAYS and not core.deep_symbolic(a) and not core.deep_symbolic(k):
            return real(*a, **k)
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        eng.stubs_used.add(target)
        return fn(SYM, _NS(ba.arguments), ctx)
    dispatch._pyvc_real = real
    return dispatch


class _NS:
    def __init__(self, d):
        self.__dict__.update(d)


def _sexpr(t):
    return t.sexpr()


def jobs(uid):
    """the cases a unit is split into, each verified on its own"""
    out = [{}]
    for nm, k in UNITS[uid].split.items():
        out = [dict(o, **{nm: i}) for o in out for i in range(k)]
    return out


def merge_results(rs):
    """results of the cases of one unit as one result"""
    r = dict(rs[0])
    if len(rs) == 1:
        return r
    crash = [x["crash"] for x in rs if "crash" in x]
    if crash:
        return {"unit": r["unit"], "crash": crash[0]}
    for x in rs[1:]:
        for k, v in x.items():
            if k in ("paths", "feasibility_queries", "solver_queries", "solver_time"):
                r[k] = r.get(k, 0) + v
            elif k == "wall":
                r[k] = max(r[k], v)
            elif k == "cover":
                r[k] = r[k] or v
            elif k in ("obligations", "unsupported", "assumed", "stubs", "models", "loops"):
                r[k] = r[k] + [y for y in v if k in ("obligations", "models") or y not in r[k]]
    return r


def verify(uid, budget_s=120.0, only=None):
    """Verify one unit symbolically.  Returns a JSON-able result."""
    u = UNITS[uid]()
    t0 = time.time()
    deadline = t0 + budget_s
    res = {"unit": uid, "pids": u.pids, "functions": u.functions, "paths": 0, "obligations": [],
           "unsupported": [], "assumed": [], "stubs": [], "cover": False, "models": []}
    if not u.symbolic:
        res["unsupported"].append(u.why_bounded or "bounded stand-in only")
        res["wall"] = 0
        return res
    core.Ctx.cur = None
    eng = Engine(u, deadline, only)
    eng.stack = [[]]
    obls = []
    assumed = set()
    q0 = dict(prove.STATS)
    while eng.stack:
        if res["paths"] >= u.max_paths:
            res["unsupported"].append(f"more than {u.max_paths} paths")
            break
        if time.time() > deadline - 2:
            res["unsupported"].append("time budget exhausted while exploring paths")
            break
        dec = eng.stack.pop()
        ctx = Ctx(eng, dec)
        ctx.inside = set()
        Ctx.cur = ctx
        res["paths"] += 1
        try:
            run_path(u, ctx, res)
        except PathEnd:
            pass
        except Unsupported as e:
            msg = f"{e}"
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
            res["unsupported"].append(msg)
        except Exception as e:
            if os.environ.get("PYVC_DEBUG"):
                traceback.print_exc()
            res["unsupported"].append(f"internal: {type(e).__name__}: {e}")
        finally:
            Ctx.cur = None
        assumed |= ctx.assumed
        if ctx.obls:
            obls.append((ctx, ctx.obls))
    res["feasibility_queries"] = eng.nfeas
    # discharge
    seen = {}
    for ctx, os_ in obls:
        for o in os_:
            goal = z3.simplify(o.goal)
            if z3.is_true(goal):
                res["obligations"].append([o.name, o.kind, "discharged", "simplifier", 0.0])
                continue
            key = (o.name, goal.sexpr(), tuple(sorted(h.get_id() for h in o.hyps)))
            if key in seen:
                continue
            seen[key] = 1
            o.goal = goal
            Ctx.cur = ctx
            left = deadline - time.time()
            if left < 1:
                o.status, o.backend = "unknown", "out of time"
            else:
                p = prove.Prover(ctx, min(u.budget, left))
                try:
                    p.prove(o)
                except (Unsupported, z3.Z3Exception) as e:
                    o.status, o.backend = "unknown", str(e)[:100]
            if o.status != "discharged" and left >= 1 and getattr(p, "model", None) is not None:
                try:
                    m = extract_model(ctx, p)
                    if m:
                        res["models"].append([o.name, m])
                except Exception as e:
                    if os.environ.get("PYVC_DEBUG"):
                        traceback.print_exc()
            if os.environ.get("PYVC_DEBUG") and o.status != "discharged":
                print("!!", uid, o.name, o.status, o.backend, ctx.trace)
                if os.environ.get("PYVC_DEBUG") == "2":
                    print("   goal:", goal)
                    for h in o.hyps:
                        print("   hyp:", h)
                    for dn, so in ctx.sum_by_decl.items():
                        print("   ", dn, ":", so.n, "|", so.guards, "|", so.factors)
            Ctx.cur = None
            res["obligations"].append([o.name, o.kind, o.status, o.backend, round(o.time, 3)])
    res["assumed"] = sorted(assumed)
    res["stubs"] = sorted([t, STUBS[t][1]] for t in eng.stubs_used)
    res["solver_queries"] = prove.STATS["queries"] - q0["queries"]
    res["solver_time"] = round(prove.STATS["time"] - q0["time"], 2)
    res["wall"] = round(time.time() - t0, 2)
    return res


def run_path(u, ctx, res):
    V = SymV(ctx)
    a = u.inputs(V)
    for c in u.pre(SYM, a):
        ctx.assume(bool_term(c))
    if not res["cover"]:
        r, _ = prove._check(list(ctx.pc), 2000)
        if r == z3.sat:
            res["cover"] = True
    P = Post(ctx)
    exc = None
    try:
        r = u.run(a)
    except (PathEnd, Unsupported):
        raise
    except Exception as e:
        exc = e
        if os.environ.get("PYVC_DEBUG") == "3":
            traceback.print_exc()
        why = limits.stand_in(e)
        if why:
            raise Unsupported("stand-in: " + why) from e
    rs = u.raises(SYM, a)
    if exc is not None:
        ok = [bool_term(c) for c, ty, *_ in rs if isinstance(exc, ty)]
        allowed = s_or(*ok)
        if not z3.is_true(allowed):
            if ok or u.no_raise:
                ctx.oblige(f"raises {type(exc).__name__} only when specified: {str(exc)[:60]}", allowed, "exception")
        else:
            ctx.oblige("raised exception is specified", core.TRUE, "exception")
        return
    for c, ty, *nm in rs:
        if nm and nm[-1] == "may":
            continue
        ctx.oblige(f"refuses with {ty.__name__}: {nm[0] if nm else ''}", s_not(bool_term(c)), "exception")
    u.post(P, SYM, a, r)
    if u.frame:
        ctx.oblige("frame: no input is written" + (f" ({sorted(set(ctx.writes))})" if ctx.writes else ""),
                   core.FALSE if ctx.writes else core.TRUE, "frame")


def extract_model(ctx, p):
    s = getattr(p, "model", None)
    if s is None:
        return None
    m = s.model()

    def ev(t):
        return m.eval(t, model_completion=True)

    def fl(t):
        v = ev(t)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            f = v.as_fraction()
            return float(f)
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        raise ValueError("no value")
    out = {}
    for name, kind, d, dn, n in ctx.inputs:
        if kind == "choice":
            out[name] = d
        elif kind == "int":
            out[name] = int(fl(d))
        elif kind == "real":
            out[name] = None if z3.is_true(ev(dn)) else float(fl(d))
        elif kind == "bool":
            out[name] = bool(z3.is_true(ev(d)))
        elif kind.startswith("arr"):
            ln = int(fl(n))
            if ln > 60 or ln < 0:
                return None
            vals = []
            for i in range(ln):
                k = z3.IntVal(i)
                if dn is not None and z3.is_true(ev(dn(k))):
                    vals.append(None)
                elif kind.startswith("arr:b"):
                    vals.append(bool(z3.is_true(ev(d(k)))))
                else:
                    vals.append(fl(d(k)))
            out[name] = vals
        elif kind == "mat":
            r, c = int(fl(n[0])), int(fl(n[1]))
            if r > 20 or c > 20 or r < 0 or c < 0:
                return None
            out[name] = [[fl(d(z3.IntVal(i), z3.IntVal(j))) for j in range(c)] for i in range(r)]
        else:
            return None
    return out
