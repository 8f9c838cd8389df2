"""Discharging obligations: fact instantiation, reduction lemmas, UF axioms, z3, cvc5."""
import itertools
import time

import z3

from . import core
from .core import (s_and, s_implies, s_not, s_or, to_real, walk)

STATS = {"queries": 0, "time": 0.0}
DEADLINE = [None]      # absolute time after which no new query is started


@core.memo
def _skip(t):
    """index terms not worth instantiating"""
    for x in walk([t]):
        if z3.is_app(x) and x.num_args() == 0 and x.decl().name().startswith("%"):
            return True
    return core.depth_of(t, 8) > 6


@core.memo
def _witness(t):
    for x in walk([t]):
        if z3.is_app(x) and x.num_args() >= 0 and x.decl().name()[:2] in ("w_", "v_"):
            return True
    return False


def apps_in(forms):
    """every application occurring in forms, once"""
    out = {}
    for f in forms:
        for a in core.apps_of(f):
            out[a.id] = a
    return out.values()


class Saturator:
    """Incrementally instantiates the facts of a context on occurring index terms."""

    def __init__(self, ctx, extra_facts=(), nfacts=None):
        self.ctx = ctx
        self.nfacts = nfacts
        self.extra = list(extra_facts)
        self.seen = {}
        self.have = set()
        self.roots = set()
        self.gen = {}
        self.max_gen = None
        self.idx = {}
        self.done = set()
        self.forms = []
        self.keep = []
        self.complete = True       # no instance was left out
        self.first = None          # index terms of the initial formulas

    def clone(self):
        r = Saturator(self.ctx, self.extra, self.nfacts)
        r.seen, r.have, r.done = dict(self.seen), set(self.have), set(self.done)
        r.roots, r.gen, r.max_gen = set(self.roots), dict(self.gen), self.max_gen
        r.idx = {k: dict(d) for k, d in self.idx.items()}
        r.forms, r.keep = list(self.forms), list(self.keep)
        r.complete, r.first = self.complete, self.first
        return r

    def add(self, forms, gen=0):
        for f in forms:
            k = f.get_id()
            if k in self.have:
                if gen or k in self.roots:
                    continue
            if gen == 0:
                self.roots.add(k)
            if k not in self.have:
                self.have.add(k)
                self.forms.append(f)
            for ap in core.apps_of(f):
                if not ap.ints:
                    continue
                old = self.seen.get(ap.id)
                if old is not None and old <= gen:
                    continue
                self.seen[ap.id] = gen
                dd = self.idx.setdefault(ap.name, {})
                for i, t in ap.ints:
                    if self.gen.get(i, 99) > gen:
                        self.gen[i] = gen
                    if i not in dd:
                        if _skip(t):
                            self.complete = False
                        else:
                            dd[i] = t

    def all_terms(self):
        out = {}
        for d in self.idx.values():
            out.update(d)
        return out

    def candidates(self, trig, every):
        r = self.candidates0(trig, every)
        if self.max_gen is not None:
            r = [t for t in r if self.gen.get(t.get_id(), 0) < self.max_gen]
        return r

    def candidates0(self, trig, every):
        if trig is None:
            return list(every.values())
        out = {}
        for nm in trig:
            if isinstance(nm, tuple):
                nm, c0, sg = nm
                for t in self.idx.get(nm, {}).values():
                    u = z3.simplify(sg * (t - c0))
                    self.keep.append(u)
                    self.gen.setdefault(u.get_id(), self.gen.get(t.get_id(), 0))
                    out[u.get_id()] = u
            else:
                out.update(self.idx.get(nm, {}))
        return list(out.values())

    def round(self, cap, pair_cap=14):
        old = core.Ctx.cur
        core.Ctx.cur = self.ctx
        try:
            new = []
            every = self.all_terms()
            if self.first is None:
                self.first = dict(every)
            for pos, f in enumerate(list(self.ctx.facts) + self.extra):
                if f.label.startswith("lemma") and self.nfacts is not None and pos >= self.nfacts:
                    continue        # a lemma proved later
                if f.arity == 0:
                    if (f.id,) in self.done:
                        continue
                    self.done.add((f.id,))
                    new.append((f.fn(), 0))
                    continue
                if isinstance(f.trig, list):
                    lists = [self.candidates(tr, every) for tr in f.trig]
                elif f.label.startswith("lemma"):
                    lists = [list(self.first.values())] * f.arity
                else:
                    lists = [self.candidates(f.trig, every)] * f.arity
                if f.arity >= 2:
                    if any(len(x) > pair_cap for x in lists):
                        self.complete = False
                    lists = [x[:pair_cap] for x in lists]
                for combo in itertools.product(*lists):
                    key = (f.id,) + tuple(t.get_id() for t in combo)
                    if key in self.done:
                        continue
                    if f.arity == 2 and combo[0].eq(combo[1]):
                        continue
                    self.done.add(key)
                    self.keep.extend(combo)
                    inst = self.ctx.instances.get(key)
                    if inst is None:
                        inst = self.ctx.instances[key] = z3.simplify(f.fn(*combo))
                        self.ctx.keep.extend(combo)
                    if z3.is_true(inst):
                        continue
                    new.append((inst, 1 + max(self.gen.get(t.get_id(), 0) for t in combo)))
                    if len(new) > cap:
                        self.complete = False
                        break
                if len(new) > cap:
                    break
        finally:
            core.Ctx.cur = old
        for inst, g in new:
            self.add([inst], g)
        return len(new)


# --------------------------------------------------------------------------
# solving a quantifier-free set

def _check(forms, ms, tactic=None):
    STATS["queries"] += 1
    t0 = time.time()
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set("timeout", int(max(1, ms)))
    s.add(*forms)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["time"] += time.time() - t0
    return r, s


_NLMUL = z3.Function("nl*", z3.RealSort(), z3.RealSort(), z3.RealSort())
_NLDIV = z3.Function("nl/", z3.RealSort(), z3.RealSort(), z3.RealSort())


def linearise(forms):
    """Products and quotients of non-constants become uninterpreted functions of their operands
    (unsat of the result implies unsat of the input); None if there are none."""
    cache, keep, hit = {}, [], []

    def conv(t):
        k = t.get_id()
        r = cache.get(k)
        if r is None:
            keep.append(t)
            r = cache[k] = conv0(t)
        return r

    def conv0(t):
        if not z3.is_app(t):
            raise core.Unsupported("quantifier")
        if not t.num_args():
            return t
        ch = [conv(c) for c in t.children()]
        k = t.decl().kind()
        if k == z3.Z3_OP_MUL and z3.is_real(t):
            co = [c for c in ch if z3.is_rational_value(c)]
            xs = sorted((c for c in ch if not z3.is_rational_value(c)), key=lambda c: c.get_id())
            if len(xs) > 1:
                hit.append(1)
                r = xs[0]
                for x in xs[1:]:
                    r = _NLMUL(r, x)
                for c in co:
                    r = c * r
                return r
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
            hit.append(1)
            return _NLDIV(*ch)
        elif k == z3.Z3_OP_POWER and not z3.is_rational_value(ch[1]):
            hit.append(1)
            return _NLDIV(_NLMUL(*ch), z3.RealVal(0))
        if all(c.eq(d) for c, d in zip(ch, t.children())):
            return t
        return t.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DISTINCT) \
            else {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_ADD: z3.Sum, z3.Z3_OP_MUL: z3.Product,
                  z3.Z3_OP_DISTINCT: z3.Distinct}[k](*ch)
    out = [conv(f) for f in forms]
    return out if hit else None


def purify(forms):
    """Replace uninterpreted applications and ToReal(int) by fresh real constants;
    drop integrality.  unsat of the result implies unsat of the input."""
    cache = {}
    keep = []
    ctr = itertools.count()

    def conv(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        keep.append(t)
        r = conv0(t)
        cache[k] = r
        return r

    names = {}

    def const(t, sort):
        key = (t.get_id())
        keep.append(t)
        if key not in names:
            nm = f"pz{next(ctr)}"
            names[key] = z3.Bool(nm) if sort == z3.BoolSort() else z3.Real(nm)
        return names[key]

    def conv0(t):
        if not z3.is_app(t):
            raise core.Unsupported("quantifier")
        k = t.decl().kind()
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        if k == z3.Z3_OP_TO_REAL:
            return conv(t.arg(0))
        if k in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                # key on the purified arguments so that equal arguments agree
                args = tuple(conv(a).get_id() for a in t.children())
                key = (t.decl().name(), args)
                if key not in names:
                    nm = f"pz{next(ctr)}"
                    names[key] = z3.Bool(nm) if t.sort() == z3.BoolSort() else z3.Real(nm)
                return names[key]
            return const(t, t.sort())
        ch = [conv(a) for a in t.children()]
        if k == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*ch)
        if k == z3.Z3_OP_AND:
            return z3.And(*ch)
        if k == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if k == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(*ch)
        if k == z3.Z3_OP_XOR:
            return z3.Xor(*ch)
        if k == z3.Z3_OP_ITE:
            return z3.If(*ch)
        if k == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if k == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if k == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if k == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if k == z3.Z3_OP_ADD:
            return z3.Sum(*ch)
        if k == z3.Z3_OP_MUL:
            return z3.Product(*ch)
        if k == z3.Z3_OP_SUB:
            r = ch[0]
            for c in ch[1:]:
                r = r - c
            return r
        if k == z3.Z3_OP_UMINUS:
            return -ch[0]
        if k == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        if k == z3.Z3_OP_POWER:
            return ch[0] ** ch[1]
        return const(t, t.sort())
    return [conv(f) for f in forms]


@core.memo
def syms(f):
    out = set()
    for x in walk([f]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and \
                (x.num_args() == 0 or x.sort() != z3.BoolSort()):
            out.add(x.get_id())
    return out


def relevant(forms, goal_forms):
    """cone of influence of the goal (by shared constants/applications)"""
    S = set()
    for g in goal_forms:
        S |= syms(g)
    fs = [(f, syms(f)) for f in forms]
    return [f for f, s in fs if s and s <= S]


def cvc5_check(forms, ms):
    try:
        import cvc5
    except ImportError:
        return "unknown"
    STATS["queries"] += 1
    t0 = time.time()
    try:
        s = z3.Solver()
        s.add(*forms)
        txt = s.to_smt2()
        lines = [ln for ln in txt.splitlines() if not ln.startswith("(check-sat)") and not ln.startswith("(set-info")]
        txt = "\n".join(lines)
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(int(ms)))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            cmd.invoke(slv, sm)
        r = slv.checkSat()
        if r.isUnsat():
            return "unsat"
        if r.isSat():
            return "sat"
    except Exception:
        pass
    finally:
        STATS["time"] += time.time() - t0
    return "unknown"


def uf_axioms(forms):
    """ground axioms for the transcendental functions occurring in forms"""
    apps = {}
    for ap in apps_in(forms):
        if ap.name.startswith("fn_"):
            apps.setdefault(ap.name, {})[ap.id] = ap.x
    out = []
    for x in apps.get("fn_log", {}).values():
        a = x.arg(0)
        f = core._const_fraction(a)
        if f is not None and f > 0:
            import math
            v = math.log(float(f))
            out.append(z3.And(x > core.real_const(v - 1e-9 * max(1, abs(v))),
                              x < core.real_const(v + 1e-9 * max(1, abs(v)))))
        else:
            out.append(z3.Implies(a > 1, x > 0))
            out.append(z3.Implies(z3.And(a > 0, a < 1), x < 0))
            out.append(z3.Implies(a == 1, x == 0))
            if z3.is_app(a) and a.decl().name() == "fn_exp":
                out.append(x == a.arg(0))
    exps = list(apps.get("fn_exp", {}).values())
    for x in exps:
        a = x.arg(0)
        out.append(x > 0)
        out.append(z3.And(z3.Implies(a == 0, x == 1), z3.Implies(a > 0, x > 1), z3.Implies(a < 0, x < 1)))
        if z3.is_app(a) and a.decl().name() == "fn_log":
            out.append(z3.Implies(a.arg(0) > 0, x == a.arg(0)))
    for x in list(apps.get("fn_log", {}).values())[:5]:
        a = x.arg(0)
        for y in exps[:5]:      # log a against b = log exp b
            b = y.arg(0)
            out.append(z3.Implies(a > 0, z3.And((a > y) == (x > b), (a < y) == (x < b))))
    for fam in (exps, list(apps.get("fn_log", {}).values()), list(apps.get("fn_sqrt", {}).values())):
        fam = fam[:8]
        for x, y in itertools.combinations(fam, 2):
            a, b = x.arg(0), y.arg(0)
            dom = z3.And(a > 0, b > 0) if fam and fam[0].decl().name() == "fn_log" else \
                (z3.And(a >= 0, b >= 0) if fam[0].decl().name() == "fn_sqrt" else z3.BoolVal(True))
            out.append(z3.Implies(z3.And(dom, a < b), x < y))
            out.append(z3.Implies(z3.And(dom, b < a), y < x))
            out.append(z3.Implies(a == b, x == y))
    for x in apps.get("fn_sqrt", {}).values():
        a = x.arg(0)
        out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
        out.append(z3.Implies(a > 0, x > 0))
    for x in apps.get("fn_pow10", {}).values():
        out.append(x > 0)
        out.append(z3.Implies(x.arg(0) == 0, x == 1))
    pows = list(apps.get("fn_pow", {}).values())[:8]
    for x in pows:              # powers of non-negative numbers
        a, q = x.arg(0), x.arg(1)
        out.append(z3.Implies(a >= 0, x >= 0))
        out.append(z3.Implies(z3.And(a > 0), x > 0))
        out.append(z3.Implies(a == 1, x == 1))
        out.append(z3.Implies(z3.And(a == 0, q > 0), x == 0))
        out.append(z3.Implies(z3.And(a >= 0, q == 1), x == a))
        out.append(z3.Implies(z3.And(a >= 0, a <= 1, q > 0), x <= 1))
    for x, y in itertools.combinations(pows, 2):
        (a, p), (b, q) = x.children(), y.children()
        out.append(z3.Implies(z3.And(p == q, p > 0, a >= 0, b >= 0), z3.And((a < b) == (x < y), (a == b) == (x == y))))
        for (u, c, r), (v, d, t) in (((x, a, p), (y, b, q)), ((y, b, q), (x, a, p))):
            out.append(z3.Implies(z3.And(c >= 0, d == u, r * t == 1, r > 0), v == c))
    for nm in ("fn_sin", "fn_cos"):
        for x in apps.get(nm, {}).values():
            out.append(z3.And(x >= -1, x <= 1))
            out.append(z3.Implies(x.arg(0) == 0, x == (0 if nm == "fn_sin" else 1)))
        for x, y in itertools.combinations(list(apps.get(nm, {}).values())[:8], 2):
            a, b = x.arg(0), y.arg(0)
            out.append(z3.Implies(a + b == 0, x + y == 0 if nm == "fn_sin" else x == y))
            out.append(z3.Implies(a == b, x == y))
    for x in apps.get("fn_arctan2", {}).values():
        out.append(z3.Implies(z3.And(x.arg(0) == 0, x.arg(1) > 0), x == 0))
    for nm, other in (("fn_sin", "fn_cos"),):
        for x in apps.get(nm, {}).values():
            y = core.uf("cos", x.arg(0))
            if y.get_id() in apps.get("fn_cos", {}):
                out.append(x * x + y * y == 1)
    return out, apps


def sum_basic(ctx, forms, sat, edges=False):
    """lemmas about single reductions and neighbouring prefixes"""
    out = []
    apps = sum_apps(ctx, forms)
    for x, so in apps:
        n, body = so.inst(x.children())
        out.append(z3.Implies(n <= 0, x == 0))
        if z3.is_int_value(n) and 0 < n.as_long() <= 3:
            tot = None
            for i in range(n.as_long()):
                g, f = body(z3.IntVal(i))
                st = z3.If(g, z3.IntVal(1), z3.IntVal(0)) if so.factors is None else z3.If(g, f, z3.RealVal(0))
                tot = st if tot is None else tot + st
            out.append(x == tot)
        if so.factors is None:
            out.append(x >= 0)
            out.append(z3.Implies(n >= 0, x <= n))
            # a positive count has a witness; a member makes it positive
            w = z3.Function("w_" + so.decl.name(), *([z3.IntSort()] * len(so.params)), z3.IntSort())(*x.children())
            g, _ = body(w)
            out.append(z3.Implies(x > 0, z3.And(w >= 0, w < n, g)))
            # and one that is not complete a non-member
            w = z3.Function("v_" + so.decl.name(), *([z3.IntSort()] * len(so.params)), z3.IntSort())(*x.children())
            g, _ = body(w)
            out.append(z3.Implies(x < n, z3.And(w >= 0, w < n, z3.Not(g))))
            if edges and not z3.is_int_value(n):
                for w in (z3.IntVal(0), z3.simplify(n - 1)):
                    g = z3.simplify(body(w)[0])
                    out.append(z3.Implies(n > 0, z3.If(g, x >= 1, x <= n - 1)))
            # witnesses of the other counts over the same range are members or not
            for y, so2 in apps[:8]:
                if so2 is so or so2.factors is not None or not so2.inst(y.children())[0].eq(n):
                    continue
                for pre in ("w_", "v_"):
                    w = z3.Function(pre + so2.decl.name(), *([z3.IntSort()] * len(so2.params)), z3.IntSort())(
                        *y.children())
                    g, _ = body(w)
                    out.append(z3.Implies(z3.And(w >= 0, w < n), z3.If(g, x >= 1, x <= n - 1)))
        elif not z3.is_true(so.guards):
            w = z3.Function("w_" + so.decl.name(), *([z3.IntSort()] * len(so.params)), z3.IntSort())(*x.children())
            g, f = body(w)
            out.append(z3.Implies(x != 0, z3.And(w >= 0, w < n, g, f != 0)))
    for (x, so), (y, so2) in itertools.permutations(apps, 2):
        if (so.factors is None) != (so2.factors is None):
            continue
        n1, b1 = so.inst(x.children())
        n2, b2 = so2.inst(y.children())
        d = z3.simplify(n1 - n2)
        if z3.is_int_value(d) and d.as_long() == 1:
            k = z3.Int("%same")
            g1, f1 = b1(k)
            g2, f2 = b2(k)
            if z3.simplify(g1).eq(z3.simplify(g2)) and z3.simplify(f1).eq(z3.simplify(f2)):
                g, f = b1(n2)
                if so.factors is None:
                    step = z3.If(g, z3.IntVal(1), z3.IntVal(0))
                else:
                    step = z3.If(g, f, z3.RealVal(0))
                out.append(z3.Implies(n2 >= 0, x == y + step))
    return out


def sum_apps(ctx, forms):
    res = {}
    tab = ctx.sum_by_decl
    for ap in apps_in(forms):
        so = tab.get(ap.name)
        if so is not None and not any(_skip(a) for _, a in ap.ints):
            res[ap.id] = (ap.x, so)
    if any(not so.params for so in tab.values()):
        for f in forms:
            for x in consts_of(f):
                so = tab.get(x.decl().name())
                if so is not None:
                    res[x.get_id()] = (x, so)
    return list(res.values())


@core.memo
def consts_of(f):
    return [x for x in walk([f]) if z3.is_app(x) and x.num_args() == 0
            and x.decl().kind() == z3.Z3_OP_UNINTERPRETED]


class Prover:
    def __init__(self, ctx, budget=20.0, facts=()):
        self.ctx = ctx
        self.budget = budget
        self.extra = facts
        self.nfacts = None
        self.missing = False        # a lemma about reductions may have been missed

    # -- a full refutation attempt of a set of formulas
    def refute(self, forms, budget=None, depth=0, rounds=3, cap=1500):
        """returns (status, backend); status 'unsat' | 'sat' | 'unknown'"""
        budget = budget or self.budget
        t_end = time.time() + budget
        ctx = self.ctx
        sat = Saturator(ctx, self.extra, self.nfacts)
        sat.add([z3.simplify(f) for f in forms])
        r, s = _check(sat.forms, 400)
        if r == z3.unsat:
            return "unsat", "z3"
        saturated = False
        for rd in range(rounds):
            basic = sum_basic(ctx, sat.forms, sat)
            if basic:
                sat.add([z3.simplify(b) for b in basic])
            if sat.round(cap) == 0:
                saturated = True
                break
            if rd == 0:
                r, s = _check(sat.forms, 1000)
                if r == z3.unsat:
                    return "unsat", "z3"
        ax, apps = uf_axioms(sat.forms)
        work = sat.forms + ax
        try:
            lin = linearise(work)
        except (core.Unsupported, z3.Z3Exception):
            lin = None
        if lin is not None:
            r, s = _check(lin, min(1500, budget * 250))
            if r == z3.unsat:
                return "unsat", "z3"
        r, s = _check(work, min(3000, budget * 250))
        if r == z3.unsat:
            return "unsat", "z3"
        first, fs = r, s
        if depth == 0:
            if self.lean(forms):
                return "unsat", "z3"
            r, s = _check(work + [z3.simplify(b) for b in sum_basic(ctx, work, sat, True)], 1000)
            if r == z3.unsat:
                return "unsat", "z3"
            extra = self.reduction_lemmas(sat, work, forms, t_end)
            if extra:
                sat.add(extra)
                sat.round(cap)
                basic = sum_basic(ctx, sat.forms, sat)
                sat.add([z3.simplify(b) for b in basic])
                ax, apps = uf_axioms(sat.forms)
                work = sat.forms + ax
                r, s = _check(work, min(4000, budget * 250))
                if r == z3.unsat:
                    return "unsat", "z3"
                first, fs = r, s
            extra = self.uf_congruence(work, apps, t_end)
            if extra:
                work = work + extra
                r, s = _check(work, min(4000, budget * 250))
                if r == z3.unsat:
                    return "unsat", "z3"
                first, fs = r, s
        # nonlinear real arithmetic on the purified problem
        for tac in ("qfnra-nlsat",):
            if time.time() > t_end:
                self.missing = True
                break
            try:
                pz = purify(relevant(work, forms[-1:]) + list(forms[-1:]))
                r, s = _check(pz, min(5000, 1000 * (t_end - time.time())),
                              z3.Then("simplify", "purify-arith", "solve-eqs", "propagate-values", tac))
                if r == z3.unsat:
                    return "unsat", "z3-nlsat"
                pz = purify(work)
                r, s = _check(pz, min(8000, 1000 * (t_end - time.time())),
                              z3.Then("simplify", "purify-arith", "solve-eqs", "propagate-values", tac))
                if r == z3.unsat:
                    return "unsat", "z3-nlsat"
            except (core.Unsupported, z3.Z3Exception):
                pass
        if first != z3.sat and depth == 0 and time.time() < t_end:
            r = cvc5_check(work, 1000 * max(1, t_end - time.time()))
            if r == "unsat":
                return "unsat", "cvc5"
        if first == z3.sat:
            self.model = fs
            # a model of the instances is a counterexample only if none is missing
            if saturated and sat.complete and not self.missing:
                return "sat", "z3"
        return "unknown", "z3"

    def lean(self, forms):
        """instances only, no lemmas about reductions, arithmetic linear"""
        t0 = time.time()
        sat = Saturator(self.ctx, self.extra, self.nfacts)
        sat.add([z3.simplify(f) for f in forms])
        for rd in range(4):
            n = sat.round(1500)
            if len(sat.forms) > 1500 or time.time() - t0 > 2.5:
                return False
            try:
                lin = linearise(sat.forms)
            except (core.Unsupported, z3.Z3Exception):
                return False
            r, _ = _check(sat.forms if lin is None else lin, 700)
            if r == z3.unsat:
                return True
            if not n:
                return False
        return False

    def reduction_lemmas(self, sat, work, forms, t_end):
        """extensionality and sign of sums, proved by separate queries"""
        ctx = self.ctx
        out = []
        apps = sum_apps(ctx, forms)
        known = {x.get_id() for x, _ in apps}
        more = [(x, so) for x, so in sum_apps(ctx, sat.forms) if x.get_id() not in known
                and not any(_witness(a) for a in x.children())]
        apps = apps + more[:10]
        self.missing |= len(more) > 10
        merged = {}
        pairs = list(itertools.combinations(apps, 2))
        pairs.sort(key=lambda p: p[0][0].decl().eq(p[1][0].decl()))      # stable: different reductions first
        for (x, so), (y, so2) in pairs:
            if time.time() > t_end:
                self.missing = True
                break
            if (so.factors is None) != (so2.factors is None):
                continue
            if merged.get(y.get_id()):
                continue
            n1, b1 = so.inst(x.children())
            n2, b2 = so2.inst(y.children())
            k = z3.Int("%ext!k")
            g1, f1 = b1(k)
            g2, f2 = b2(k)
            if so.factors is None:
                diff = g1 != g2
            else:
                diff = z3.If(g1, f1, z3.RealVal(0)) != z3.If(g2, f2, z3.RealVal(0))
            q = list(forms) + [s_or(n1 != n2, s_and(k >= 0, k < n1, diff))]
            q[-1] = z3.substitute(q[-1], (k, z3.Int("ext!k")))
            st, _ = self.refute(q, budget=2.0, depth=1, rounds=2, cap=600)
            self.missing |= st == "unknown"
            if st == "unsat":
                out.append(x == y)
                merged[y.get_id()] = True
        out += self.additive_lemmas(apps, merged, forms, t_end)
        out += self.functional_lemmas(sat, forms, t_end)
        for x, so in apps:
            if so.factors is None or time.time() > t_end:
                continue
            n, body = so.inst(x.children())
            k = z3.Int("ext!k")
            g, f = body(k)
            st, _ = self.refute(list(forms) + [s_and(k >= 0, k < n, g, f < 0)], budget=1.5,
                                depth=1, rounds=2, cap=600)
            self.missing |= st == "unknown"
            if st == "unsat":
                out.append(x >= 0)
                # each summand is a lower bound (instantiated at known indices)
                idx = list(sat.all_terms().values())[:12]
                for t in idx:
                    gt, ft = body(t)
                    out.append(z3.Implies(z3.And(t >= 0, t < n, gt), x >= ft))
        return out

    def additive_lemmas(self, apps, merged, forms, t_end):
        """x = y + z for reductions over the same range, from the pointwise equality"""
        out = []
        apps = [(x, so) for x, so in apps if not merged.get(x.get_id())]
        self.missing |= len(apps) > 7
        apps = apps[:7]
        k = z3.Int("ext!k")

        def point(so, x):
            n, body = so.inst(x.children())
            g, f = body(k)
            return n, z3.If(g, z3.RealVal(1) if so.factors is None else f, z3.RealVal(0))
        for (x, so) in apps:
            for (y, s2), (z, s3) in itertools.combinations([a for a in apps if not a[0].eq(x)], 2):
                if time.time() > t_end:
                    self.missing = True
                    return out
                if len({so.factors is None, s2.factors is None, s3.factors is None}) > 1:
                    continue
                (n1, p1), (n2, p2), (n3, p3) = point(so, x), point(s2, y), point(s3, z)
                if not (n1.eq(n2) and n1.eq(n3)):
                    continue
                st, _ = self.refute(list(forms) + [s_and(k >= 0, k < n1, p1 != p2 + p3)], budget=1.0, depth=1,
                                    rounds=2, cap=600)
                self.missing |= st == "unknown"
                if st == "unsat":
                    out.append(x == y + z)
        return out

    def functional_lemmas(self, sat, forms, t_end):
        ctx = self.ctx
        if not ctx.fun_by_decl:
            return []
        apps = {}
        occ = [ap.x for ap in apps_in(sat.forms)] + [x for f in sat.forms for x in consts_of(f)]
        for x in occ:
            if x.decl().name() in ctx.fun_by_decl:
                if not any(_skip(a) for a in x.children()):
                    apps[x.get_id()] = x
        # the NaN flag of an application may occur without its value
        for x in occ:
            if x.decl().name().startswith("F_") and x.decl().name().endswith("_nan"):
                fo = ctx.fun_by_decl.get(x.decl().name()[:-4])
                if fo is not None:
                    y = fo.decl(*x.children())
                    apps.setdefault(y.get_id(), y)
        out = []
        for x, y in itertools.combinations(list(apps.values())[:12], 2):
            if time.time() > t_end:
                self.missing = True
                break
            f1, f2 = ctx.fun_by_decl[x.decl().name()], ctx.fun_by_decl[y.decl().name()]
            if f1.name != f2.name or len(f1.arrays) != len(f2.arrays):
                continue
            a1, s1 = f1.inst(x.children())
            a2, s2 = f2.inst(y.children())
            if len(s1) != len(s2):
                continue
            k = z3.Int("ext!f")
            diff = [p != q for p, q in zip(s1, s2)]
            for (n1, e1, q1), (n2, e2, q2) in zip(a1, a2):
                own = core.OWN
                d = [z3.substitute(t, (own, k)) for t in (e1, q1, e2, q2)]
                diff.append(n1 != n2)
                diff.append(s_and(k >= 0, k < n1, s_or(d[0] != d[2], d[1] != d[3])))
            st, _ = self.refute(list(forms) + [s_or(*diff)], budget=3.0, depth=1, rounds=2, cap=600)
            self.missing |= st == "unknown"
            if st == "unsat":
                out.append(x == y)
                out.append(f1.ndecl(*x.children()) == f2.ndecl(*y.children()))
        return out

    def uf_congruence(self, work, apps, t_end):
        out = []
        for nm, d in apps.items():
            xs = list(d.values())[:8]
            for x, y in itertools.combinations(xs, 2):
                if time.time() > t_end:
                    self.missing = True
                    return out
                if x.num_args() != y.num_args():
                    continue
                diff = s_or(*[a != b for a, b in zip(x.children(), y.children())])
                r, _ = _check(work + [diff], 300)
                if r != z3.unsat:
                    try:
                        pz = purify(relevant(work, [diff]) + [diff])
                        r, _ = _check(pz, 1500, z3.Then("simplify", "purify-arith", "solve-eqs",
                                                        "propagate-values", "qfnra-nlsat"))
                    except (core.Unsupported, z3.Z3Exception):
                        r = z3.unknown
                if r == z3.unsat:
                    out.append(x == y)
        return out

    def prove(self, ob):
        t0 = time.time()
        goal = ob.goal
        self.nfacts = ob.nfacts
        self.missing = False
        st, be = self.refute(list(ob.hyps) + [s_not(goal)])
        ob.time = time.time() - t0
        ob.backend = be
        ob.status = {"unsat": "discharged", "sat": "refuted", "unknown": "unknown"}[st]
        return ob.status


