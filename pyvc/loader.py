"""Loads the real seismostats modules from /repo's working tree with a mechanical
transformation that makes them executable on symbolic values.

What the transformation changes (and nothing else):
  * `for` and `while` loops are routed through a driver object so that a loop over
    a symbolic sequence can be cut at its invariant,
  * single-generator comprehensions are routed through a helper (lazy element),
  * `a if c else b` is routed through a helper (merge on symbolic c),
  * `not x` is routed through a helper,
  * an `if` without `else` whose body only issues warnings (or prints) runs its body without
    branching when its condition is symbolic: the body has no effect on results,
  * the names numpy, warnings, decimal, pandas, scipy and the builtins len, range, ... are
    bound to symbolic counterparts that fall through to the real ones on concrete data.
Docstrings, annotations and everything else stay as written.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
PKG = "seismostats"

SHIMMED = {"len", "range", "enumerate", "zip", "sum", "min", "max", "float", "int", "bool", "all", "any",
           "print", "round", "sorted", "list", "tuple", "reversed", "isinstance", "str", "map", "abs"}


class _Free(ast.NodeVisitor):
    def __init__(self):
        self.loads = []

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.loads.append(n.id)


def free_names(node):
    v = _Free()
    v.visit(node)
    return v.loads


class _Modified(ast.NodeVisitor):
    """names whose binding or (first-level) contents a loop body changes"""

    def __init__(self):
        self.names = []
        self.attrs = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                self.add(b.id)
            else:
                self.attrs.append(ast.unparse(b))
        self.generic_visit(n)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.attrs.append(ast.unparse(n))
        self.generic_visit(n)

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
                f.attr in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "add"):
            self.add(f.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass
    visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp


def _modified(body):
    m = _Modified()
    for s in body:
        m.visit(s)
    return m.names, m.attrs


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _call(f, *args):
    return ast.Call(func=_name(f) if isinstance(f, str) else f, args=list(args), keywords=[])


def _attr(v, a):
    return ast.Attribute(value=_name(v), attr=a, ctx=ast.Load())


def _simple(e):
    """an expression that cannot fail or have an effect (get_option aside)"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "get_option"):
            return False
        if isinstance(x, (ast.Subscript, ast.NamedExpr, ast.Await, ast.Yield, ast.ListComp, ast.GeneratorExp,
                          ast.BinOp)):
            return False
    return True


def _inert(e):
    return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.Lambda, ast.Starred))
                   and not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)
                            and x.func.attr == "format") for x in ast.walk(e))


def _warn_only(body):
    for s in body:
        if isinstance(s, ast.If) and not s.orelse and _warn_only(s.body):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            ok = isinstance(f, ast.Name) and f.id == "print" or (
                isinstance(f, ast.Attribute) and f.attr == "warn" and isinstance(f.value, ast.Name)
                and f.value.id == "warnings")
            if ok and all(_inert(x) for x in s.value.args + [k.value for k in s.value.keywords]):
                continue
        return False
    return True


def _inner_tests(body):
    for s in body:
        if isinstance(s, ast.If):
            yield s.test
            yield from _inner_tests(s.body)


class Transformer(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loopno = []
        self.ctr = 0
        self.locals = []
        self.globals = set()

    def qual(self):
        return self.mod + ":" + ".".join(self.stack)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.loopno.append(0)
        assigned = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        if n.args.vararg:
            assigned.add(n.args.vararg.arg)
        if n.args.kwarg:
            assigned.add(n.args.kwarg.arg)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                assigned.add(x.id)
        self.locals.append(assigned)
        n.body = [self.visit(s) for s in n.body]
        n.body = [y for s in n.body for y in (s if isinstance(s, list) else [s])]
        self.locals.pop()
        self.loopno.pop()
        self.stack.pop()
        return n

    def _fresh(self, p):
        self.ctr += 1
        return f"pyvc__{p}{self.ctr}"

    def _loop_key(self):
        k = self.loopno[-1]
        self.loopno[-1] += 1
        return self.qual(), k

    def visit_For(self, n):
        if not self.loopno:
            return self.generic_visit(n)
        q, k = self._loop_key()
        names, attrs = _modified(n.body)
        tn = [x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        names = [x for x in names if x not in tn]
        self.generic_visit(n)
        L, t = self._fresh("L"), self._fresh("t")
        new = ast.Assign(targets=[_name(L, ast.Store())], value=_call(
            "pyvc__loop", n.iter, ast.Constant(q), ast.Constant(k),
            ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
            ast.Tuple([ast.Constant(x) for x in attrs], ast.Load())))
        hav = ast.If(test=_attr(L, "sym"), body=[
            ast.Assign(targets=[_name(x, ast.Store())], value=_call(_attr(L, "get"), ast.Constant(x)))
            for x in names] or [ast.Pass()], orelse=[])
        import copy
        body = [hav, ast.Assign(targets=[n.target], value=_name(t))] + n.body
        orelse = [copy.deepcopy(hav)] + list(n.orelse)
        loop = ast.For(target=_name(t, ast.Store()), iter=_name(L), body=body, orelse=orelse)
        return [new, loop]

    def visit_While(self, n):
        if not self.loopno or n.orelse:
            return self.generic_visit(n)
        q, k = self._loop_key()
        names, attrs = _modified(n.body + [ast.Expr(n.test)])
        self.generic_visit(n)
        L, t = self._fresh("L"), self._fresh("t")
        new = ast.Assign(targets=[_name(L, ast.Store())], value=_call(
            "pyvc__while", ast.Constant(q), ast.Constant(k),
            ast.Tuple([ast.Constant(x) for x in names], ast.Load()),
            ast.Tuple([ast.Constant(x) for x in attrs], ast.Load())))
        hav = ast.If(test=_attr(L, "sym"), body=[
            ast.Assign(targets=[_name(x, ast.Store())], value=_call(_attr(L, "get"), ast.Constant(x)))
            for x in names] or [ast.Pass()], orelse=[])
        test = ast.If(test=ast.UnaryOp(ast.Not(), n.test), body=[ast.Break()], orelse=[])
        loop = ast.For(target=_name(t, ast.Store()), iter=_name(L), body=[hav, test] + n.body, orelse=[])
        return [new, loop]

    def _lambda(self, arg_target, expr):
        """lambda __x: expr with arg_target bound, capturing current locals"""
        tn = [x.id for x in ast.walk(arg_target) if isinstance(x, ast.Name)]
        caps = []
        local = self.locals[-1] if self.locals else set()
        for nm in free_names(expr):
            if nm in local and nm not in tn and nm not in caps:
                caps.append(nm)
        x = self._fresh("x")
        if isinstance(arg_target, ast.Name):
            args = [ast.arg(arg_target.id)] + [ast.arg(c) for c in caps]
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=args, kwonlyargs=[], kw_defaults=[],
                                                defaults=[_name(c) for c in caps]), body=expr)
            return lam
        if isinstance(arg_target, ast.Tuple) and all(isinstance(e, ast.Name) for e in arg_target.elts):
            inner = ast.Lambda(args=ast.arguments(
                posonlyargs=[], args=[ast.arg(e.id) for e in arg_target.elts] + [ast.arg(c) for c in caps],
                kwonlyargs=[], kw_defaults=[], defaults=[_name(c) for c in caps]), body=expr)
            return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x)], kwonlyargs=[], kw_defaults=[],
                                                 defaults=[]),
                              body=ast.Call(func=inner, args=[ast.Starred(_name(x), ast.Load())], keywords=[]))
        return None

    def _comp(self, n, kind):
        if not self.loopno or len(n.generators) != 1 or n.generators[0].is_async:
            return self.generic_visit(n)
        g = n.generators[0]
        # a comprehension variable that is captured by an inner comprehension is a local there
        tn = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
        added = [x for x in tn if x not in self.locals[-1]]
        self.locals[-1].update(added)
        self.generic_visit(n)
        el = self._lambda(g.target, n.elt)
        cond = ast.Constant(None)
        if g.ifs:
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self._lambda(g.target, test)
        for x in added:
            self.locals[-1].discard(x)
        if el is None or cond is None:
            return n
        return _call("pyvc__comp", ast.Constant(kind), g.iter, el, cond)

    def visit_ListComp(self, n):
        return self._comp(n, "list")

    def visit_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Name) and f.id in SHIMMED and not any(f.id in l for l in self.locals) \
                and f.id not in self.globals:
            n.func = _name("pyvc__b_" + f.id)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        z = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
        if not self.loopno:
            return n
        return _call("pyvc__ifexp", n.test, ast.Lambda(args=z, body=n.body), ast.Lambda(args=z, body=n.orelse))

    def visit_If(self, n):
        self.mark(n)
        self.generic_visit(n)
        if getattr(n, "pyvc_maybe", None) is not None:
            z = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            parts = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
            n.test = _call("pyvc__maybe", *[ast.Tuple(elts=[ast.Lambda(args=z, body=p), ast.Constant(value=f)],
                                                      ctx=ast.Load()) for p, f in zip(parts, n.pyvc_maybe)])
        return n

    def mark(self, n):
        """for each conjunct of a test guarding only warnings: may it stay undecided?"""
        if not self.loopno or n.orelse or not _warn_only(n.body) or any(
                isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            return
        parts = n.test.values if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) else [n.test]
        rest = list(_inner_tests(n.body))
        n.pyvc_maybe = [all(_simple(e) for e in parts[i + 1:] + rest) for i in range(len(parts))]

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if self.loopno and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and \
                isinstance(n.left.value, str):
            return _call("pyvc__format", n.left, n.right)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.loopno and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                not isinstance(n.comparators[0], (ast.List, ast.Tuple, ast.Set, ast.Constant)):
            return _call("pyvc__in", n.left, n.comparators[0], ast.Constant(isinstance(n.ops[0], ast.In)))
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and self.loopno:
            return _call("pyvc__not", n.operand)
        return n


def transform(src, modname, path):
    tree = ast.parse(src)
    tr = Transformer(modname)
    for x in tree.body:
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
            tr.globals.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            tr.globals.update((a.asname or a.name) for a in x.names)
        elif isinstance(x, ast.Assign):
            tr.globals.update(y.id for t in x.targets for y in ast.walk(t) if isinstance(y, ast.Name))
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, "exec")


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        if name != PKG and not name.startswith(PKG + "."):
            return None
        rel = name.replace(".", "/")
        p = os.path.join(self.root, rel, "__init__.py")
        if os.path.isfile(p):
            spec = importlib.util.spec_from_loader(name, self, origin=p, is_package=True)
            spec.submodule_search_locations = [os.path.dirname(p)]
            return spec
        p = os.path.join(self.root, rel + ".py")
        if os.path.isfile(p):
            return importlib.util.spec_from_loader(name, self, origin=p)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        from . import runtime
        p = mod.__spec__.origin
        mod.__file__ = p
        with open(p) as f:
            src = f.read()
        code = transform(src, mod.__name__, p)
        d = mod.__dict__
        runtime.inject_helpers(d)
        exec(code, d)
        runtime.inject_shims(d)
        self.loaded.append(mod.__name__)


def install():
    """Instrumented import of the package; call before anything imports it."""
    assert PKG not in sys.modules
    f = Finder(REPO)
    sys.meta_path.insert(0, f)
    return f
