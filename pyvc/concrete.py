"""Runs the same contracts on the uninstrumented package: replay of counter-models, search for
failing inputs, cross-check of the verifier's assumptions, bounded stand-ins."""
import contextlib
import copy
import io
import os
import signal
import sys
import traceback
import warnings

import numpy as np

from . import engine, limits
from .core import Limit, Unsupported
from .spec import CON

CASE_LIMIT = 60


class Hang(BaseException):
    pass


def snapshot(x):
    try:
        return copy.deepcopy(x)
    except Exception:
        return None


def is_data(x):
    if isinstance(x, (list, tuple)):
        return all(y is None or isinstance(y, (bool, int, float, str, np.generic)) or is_data(y) or
                   type(y).__module__ in ("datetime",) for y in x)
    # catalogues are left out: methods store their estimates in them
    return isinstance(x, np.ndarray) or (hasattr(x, "equals") and not hasattr(x, "mc"))


def same(a, b):
    """exact equality of an input before and after"""
    if a is None or b is None:
        return a is b
    if hasattr(a, "equals") and hasattr(a, "columns"):
        import pandas as pd
        try:
            pd.testing.assert_frame_equal(pd.DataFrame(a), pd.DataFrame(b))
        except AssertionError:
            return False
        da = {k: a.__dict__.get(k) for k in getattr(a, "_metadata", [])}
        db = {k: b.__dict__.get(k) for k in getattr(b, "_metadata", [])}
        return repr(da) == repr(db)
    if hasattr(a, "equals"):
        return bool(a.equals(b)) and list(getattr(a, "index", [])) == list(getattr(b, "index", []))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind == "f":
            return bool(np.array_equal(a, b, equal_nan=True))
        return all(x is y or x == y for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return True


def show(x, depth=3):
    if isinstance(x, np.ndarray):
        return f"np.array({x.tolist()!r}, dtype={x.dtype.name!r})" if x.size <= 200 else f"array of {x.shape}"
    if hasattr(x, "to_dict") and hasattr(x, "columns"):
        return f"{type(x).__name__}({x.to_dict('list')!r}, index={list(x.index)!r})"[:6000]
    if hasattr(x, "tolist") and hasattr(x, "index"):
        return f"Series({x.tolist()!r}, index={list(x.index)!r})"
    if isinstance(x, dict) and depth:
        return "{" + ", ".join(f"{k!r}: {show(v, depth - 1)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)) and depth:
        return "[" + ", ".join(show(v, depth - 1) for v in x) + "]"
    return repr(x)[:3000]


class ConV:
    symbolic = False
    long = False            # longer samples than usual

    def __init__(self, rng, tier="quick"):
        self.rng = rng
        self.tier = tier
        self.values = {}
        self.tracked = []

    def option(self):
        on = bool(np.random.default_rng(self.rng.integers(2 ** 31)).random() < 0.7)
        return self._rec("option warnings", on)

    def _rec(self, name, v):
        self.values[name] = v
        return v

    def choice(self, name, options):
        k = int(self.rng.integers(len(options)))
        self._rec(name, options[k])
        return options[k]

    def int(self, name, lo=None, upto=None, gen=None, hi=None):
        if gen is not None:
            return self._rec(name, int(gen(self.rng)))
        hi = upto if hi is None else hi
        lo = -10 if lo is None else int(lo)
        hi = lo + 25 if hi is None else int(hi)
        if name == "n" and self.long:
            hi += 5 * (hi - lo)
        return self._rec(name, int(self.rng.integers(lo, hi + 1)))

    def real(self, name, lo=None, hi=None, nan=False, gen=None, gt=None):
        if nan and self.rng.random() < 0.15:
            return self._rec(name, np.nan)
        if gen is not None:
            v = gen(self.rng)
            return self._rec(name, v)
        lo = gt if lo is None else lo
        lo = -5.0 if lo is None else float(lo)
        hi = lo + 8.0 if hi is None else float(hi)
        v = float(round(lo + (hi - lo) * float(self.rng.random()), 3))
        v = min(max(v, lo), hi)
        if gt is not None and v <= gt:
            v = (gt + hi) / 2
        return self._rec(name, v)

    def bool(self, name):
        return self._rec(name, bool(self.rng.integers(2)))

    def arr(self, name, n, kind="f", nan=False, lo=None, hi=None, gen=None, is_list=False, label=True):
        n = int(n)
        if gen is not None:
            a = gen(self.rng, n)
        elif kind == "b":
            a = self.rng.random(n) < 0.5
        elif kind == "i":
            l = -5 if lo is None else int(lo)
            a = self.rng.integers(l, (l + 10 if hi is None else int(hi)) + 1, n)
        else:
            l = -3.0 if lo is None else float(lo)
            h = l + 6.0 if hi is None else float(hi)
            a = np.round(l + (h - l) * self.rng.random(n), 2)
        if nan and isinstance(a, np.ndarray) and a.dtype.kind == "f" and self.rng.random() < 0.5:
            a = np.where(self.rng.random(n) < 0.2, np.nan, a)
        if is_list and isinstance(a, np.ndarray):
            a = a.tolist()
        self._rec(name, a)
        if label:
            self.tracked.append((name, a, snapshot(a)))
        return a

    def mat(self, name, n, m, kind="f", gen=None):
        a = gen(self.rng, int(n), int(m)) if gen else self.rng.random((int(n), int(m)))
        self._rec(name, a)
        self.tracked.append((name, a, snapshot(a)))
        return a

    def obj(self, name, sym, gen):
        o = gen(self.rng)
        self._rec(name, o)
        self.tracked.append((name, o, snapshot(o)))
        return o

    def concrete(self, name, value, gen):
        return self._rec(name, gen(self.rng))


class ModelV(ConV):
    """values of a counter-model"""

    def __init__(self, model):
        super().__init__(np.random.default_rng(0))
        self.model = model

    def _take(self, name):
        if name not in self.model:
            raise KeyError(name)
        return self.model[name]

    def option(self):
        return self._rec("option warnings", self.model.get("option warnings", 0) == 0)

    def choice(self, name, options):
        return self._rec(name, options[self._take(name)])

    def int(self, name, *a, **k):
        return self._rec(name, int(self._take(name)))

    def real(self, name, *a, **k):
        v = self._take(name)
        return self._rec(name, np.nan if v is None else float(v))

    def bool(self, name):
        return self._rec(name, bool(self._take(name)))

    def arr(self, name, n, kind="f", nan=False, lo=None, hi=None, gen=None, is_list=False, label=True):
        v = self._take(name)
        a = np.array([np.nan if x is None else x for x in v], dtype={"f": float, "i": int, "b": bool}[kind])
        if is_list:
            a = a.tolist()
        self._rec(name, a)
        if label:
            self.tracked.append((name, a, snapshot(a)))
        return a

    def mat(self, name, n, m, kind="f", gen=None):
        a = np.array(self._take(name), dtype=float).reshape(int(n), int(m))
        self._rec(name, a)
        self.tracked.append((name, a, snapshot(a)))
        return a

    def obj(self, name, sym, gen):
        raise KeyError(name)


class ConPost:
    def __init__(self):
        self.failed = []
        self.n = 0

    def check(self, name, cond):
        self.n += 1
        if not bool(cond):
            self.failed.append((name, "false"))

    def eq(self, name, actual, expected, **tol):
        self.n += 1
        if not CON.eq(actual, expected, **tol):
            self.failed.append((name, f"got {show(actual)[:600]}, specified {show(expected)[:600]}"))

    def lemma(self, name, cond):
        pass

    def lemma_all(self, name, n, f):
        pass

    def split_all(self, n, f, cond):
        pass

    def induction(self, name, n, f):
        pass

    def forall(self, name, n, f):
        self.n += 1
        for i in range(int(n)):
            if not bool(f(i)):
                self.failed.append((name, f"fails at {i}"))
                return


def run_case(u, V, seed=0):
    """None: precondition not met; else (failures, number of evaluated conditions, trivial?)"""
    np.random.seed(seed)
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        a = u.inputs(V)
        for c in u.pre(CON, a):
            if not bool(c):
                return None
        set_warnings(V.option())
        if u.frame:
            seen = {id(t[1]) for t in V.tracked}
            V.tracked += [(k, x, snapshot(x)) for k, x in a.items() if id(x) not in seen and is_data(x)]
        P = ConPost()
        exc = None
        try:
            r = u.run(a)
        except Hang:
            raise
        except Exception as e:
            why = limits.stand_in(e)
            if why:
                raise Limit(why) from e
            exc = e
            tb = traceback.format_exc()
        changed = [nm for nm, now, old in V.tracked if not same(old, now)]
        rs = u.raises(CON, a)
        if exc is not None:
            P.n += 1
            if not any(isinstance(exc, ty) and bool(c) for c, ty, *_ in rs):
                if any(isinstance(exc, ty) for c, ty, *_ in rs) or u.no_raise:
                    P.failed.append((f"raises {type(exc).__name__} only when specified", tb[-1500:]))
        else:
            bad = False
            for c, ty, *nm in rs:
                if nm and nm[-1] == "may":
                    continue
                P.n += 1
                if bool(c):
                    bad = True
                    P.failed.append((f"refuses with {ty.__name__}: {nm[0] if nm else ''}",
                                     f"returned {show(r)[:600]}"))
            if not bad:
                try:
                    u.post(P, CON, a, r)
                except Exception as e:  # noqa: BLE001
                    # a result that already failed a condition may be unfit for the others; a contract on real runs
                    # alone judges the result itself
                    if not P.failed:
                        if u.symbolic or isinstance(e, Unsupported) or limits.stand_in(e):
                            raise
                        P.failed.append(("the result can be judged", traceback.format_exc()[-1500:]))
        if u.frame:
            P.n += 1
            if changed:
                P.failed.append(("frame: no input is written", f"changed: {changed}"))
    return P.failed, P.n, exc is not None


def set_warnings(on):
    from seismostats.utils import _config
    _config.set_option("warnings", bool(on))


def _alarm(*_):
    raise Hang()


def search(uid, seed, ncases, start=0, stop_first=True, time_limit=120.0, every=12):
    """Deterministic sequence of cases for a unit."""
    import time
    u = engine.UNITS[uid]()
    t0 = time.time()
    out = {"unit": uid, "cases": 0, "skipped": 0, "raised": 0, "conditions": 0, "failures": [], "errors": [],
           "samples": [], "distinct": 0, "limits": {}}
    seen = set()
    signal.signal(signal.SIGALRM, _alarm)
    for i in range(start, start + ncases):
        if time.time() - t0 > time_limit:
            out["errors"].append(f"stopped after {time_limit:.0f} s")
            break
        V = ConV(np.random.default_rng([seed, i, _h(uid)]))
        V.case = i
        V.long = i % every == 7 % every
        signal.alarm(CASE_LIMIT)
        try:
            r = run_case(u, V, seed * 1000003 + i & 0x7FFFFFFF)
        except Hang:
            out["failures"].append({"case": i, "name": "terminates", "detail": f"no result within {CASE_LIMIT} s",
                                    "inputs": {k: show(v) for k, v in V.values.items()}})
            if stop_first:
                break
            continue
        except Unsupported as e:
            out["limits"][str(e)[:200]] = out["limits"].get(str(e)[:200], 0) + 1
            continue
        except Exception:
            out["errors"].append(f"case {i}: " + traceback.format_exc()[-1200:])
            if len(out["errors"]) > 5:
                break
            continue
        finally:
            signal.alarm(0)
        if r is None:
            out["skipped"] += 1
            continue
        failed, n, raised = r
        out["cases"] += 1
        out["conditions"] += n
        out["raised"] += int(raised)
        key = repr({k: show(v) for k, v in V.values.items()})
        if key not in seen:
            seen.add(key)
            if not raised:
                out["distinct"] += 1
        if len(out["samples"]) < 2:
            out["samples"].append({k: show(v)[:400] for k, v in V.values.items()})
        if failed:
            out["failures"].append({"case": i, "name": failed[0][0], "detail": failed[0][1],
                                    "all": [f[0] for f in failed],
                                    "inputs": {k: show(v) for k, v in V.values.items()}})
            if stop_first:
                break
    out["wall"] = round(time.time() - t0, 2)
    return out


def _h(s):
    import zlib
    return zlib.crc32(s.encode())


def replay_model(uid, model):
    """(status, failures): the counter-model on the real code"""
    u = engine.UNITS[uid]()
    V = ModelV(model)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        r = run_case(u, V, 0)
    except Hang:
        return "failed", [("terminates", "hang")], {k: show(v) for k, v in V.values.items()}
    except (Exception, Unsupported) as e:
        return "not replayable", [(type(e).__name__, str(e)[:200])], {}
    finally:
        signal.alarm(0)
    if r is None:
        return "precondition not met", [], {}
    return ("failed" if r[0] else "passed"), r[0], {k: show(v) for k, v in V.values.items()}
