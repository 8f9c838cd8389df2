"""Shared pieces of the contracts."""
import importlib

import numpy as np

from pyvc.core import Limit                         # noqa: F401
from pyvc.engine import Unit, unit, stub            # noqa: F401


def mod(name):
    return importlib.import_module("seismostats." + name)


def get(path):
    m, q = path.split(":")
    try:
        o = mod(m)
        for p in q.split("."):
            o = getattr(o, p)
    except (ImportError, AttributeError) as e:
        raise Limit(f"{path} is not there: {e}") from e
    return o


def size(x):
    from pyvc.npshim import BUILTINS
    return BUILTINS["len"](x)


LN10 = float(np.log(10))


def gen_weights(rng, n):
    k = rng.integers(4)
    if k == 0:
        w = rng.integers(1, 5, n).astype(float)
    elif k == 1:
        w = np.round(rng.random(n) * 3 + 0.1, 2)
    elif k == 2:
        w = np.where(rng.random(n) < 0.3, 0.0, np.round(rng.random(n) + 0.5, 2))
    else:
        w = np.ones(n)
    return w


# ---- spec functions -------------------------------------------------------

def wsum(S, n, f, w):
    """sum of f(i) w(i)"""
    if w is None:
        return S.sum(n, f)
    return S.sum(n, lambda i: f(i) * S.at(w, i))


def wtot(S, n, w):
    return S.real(n) if w is None else S.sum(n, lambda i: S.at(w, i))


def wmean(S, n, f, w):
    return wsum(S, n, f, w) / wtot(S, n, w)


@stub("seismostats.utils._config:get_option", always=True)
def _get_option(S, A, ctx):
    """either setting; the same one throughout a run"""
    if A.key != "warnings":
        raise KeyError(A.key)
    if getattr(ctx, "in_warn", False) and not hasattr(ctx, "warn_option"):
        return True         # guards only warnings: nothing depends on it
    if not hasattr(ctx, "warn_option"):
        k = ctx.choose(2, "option warnings")
        ctx.inputs.append(("option warnings", "choice", k, None, None))
        ctx.warn_option = k == 0
    return ctx.warn_option
