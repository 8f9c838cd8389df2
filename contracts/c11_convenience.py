"""C11: convenience functions and Catalog methods."""
import inspect

import numpy as np

from pyvc import limits
from pyvc.core import Ctx
from pyvc.spec import CON, SYM
from .common import Unit, gen_weights, get, unit
from .c09_ks import METHODS, B, KsSample, candidates, replaced, require
from .estimators import Catalogue

BFQ = "seismostats.analysis.bvalue:"
AFQ = "seismostats.analysis.avalue:"
CFQ = "seismostats.catalogs.catalog:"
CAT = "catalogs.catalog"
GIVEN = [True, False]


def same(S, x, y):
    """the very value that has to be handed over"""
    if x is None or y is None:
        return x is None and y is None
    if isinstance(y, (str, bool, type)) or isinstance(x, (str, bool, type)):
        return x is y or type(x) is type(y) and x == y
    return x is y or S.eq(x, y)


def handed(S, what, got, want, observable=False):
    """a call must be given exactly these arguments; None is an argument that is not given"""
    require(f"{what}: no other argument is given", all(got[k] is None for k in set(got) - set(want)), observable)
    for k in want:
        require(f"{what} is given {k}", same(S, got.get(k), want[k]), observable)


def bound_args(sig, args, kw, catch="kw"):
    b = inspect.signature(sig).bind(*args, **kw)
    b.apply_defaults()
    d = dict(b.arguments)
    d.update(d.pop(catch, {}))
    return d


def results(V, names):
    return {k: V.real(k) for k in names}


def abstract(S, a, sig, want, res, pre=None):
    """an estimator whose results are arbitrary numbers and whose arguments are checked"""
    class Estimator:
        _weights_supported = a.get("supported", True)

        def calculate(self, *args, **kw):
            handed(S, "the estimator", bound_args(sig, args, kw), want(a), observable=True)
            for k, v in res.items():
                setattr(self, k, v)
    return Estimator


B_SIG = lambda magnitudes, mc, delta_m, weights=None, **kw: None
A_SIG = lambda magnitudes, mc, delta_m, scaling_factor=None, m_ref=None, b_value=None, **kw: None


def opt(V, name, values=None):
    """an argument that may be missing; zero included"""
    return V.real(name, gen=lambda g: (values or [0.0, 0, 1.0, 0.3, -0.2])[int(g.integers(5))]) \
        if V.choice(name + " given", GIVEN) else None


@unit("estimate_b", ["C11", "C14"], [BFQ + "estimate_b"], cases=200)
class EstimateB(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 8)
        a = {"x": V.arr("x", n), "mc": V.real("mc"), "dm": V.real("dm"),
             "w": V.arr("w", n) if V.choice("weights given", GIVEN) else None,
             "par": V.choice("b_parameter", ["b_value", "beta", "other", "default"]),
             "std": V.choice("return_std", [True, False]), "n": V.choice("return_n", [True, False]),
             "extra": V.real("extra") if V.choice("keyword arguments", GIVEN) else None}
        a["res"] = results(V, ["b_value", "beta", "std", "std_beta"])
        a["res"]["n"] = V.int("used", 0)
        return a

    def raises(self, S, a):
        return [(a["par"] == "other", ValueError, "unknown parameter name")]

    def want(self, a):
        w = {"magnitudes": a["x"], "mc": a["mc"], "delta_m": a["dm"], "weights": a["w"]}
        if a["extra"] is not None:
            w["extra"] = a["extra"]
        return w

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        kw = {} if a["extra"] is None else {"extra": a["extra"]}
        if a["par"] != "default":
            kw["b_parameter"] = a["par"]
        return get("analysis.bvalue:estimate_b")(
            a["x"], a["mc"], a["dm"], weights=a["w"], return_std=a["std"], return_n=a["n"],
            method=abstract(S, a, B_SIG, self.want, a["res"]), **kw)

    def post(self, P, S, a, r):
        q = a["res"]
        b, s = ("beta", "std_beta") if a["par"] == "beta" else ("b_value", "std")
        want = [q[b]] + ([q[s]] if a["std"] else []) + ([q["n"]] if a["n"] else [])
        if len(want) == 1:
            P.eq("value alone", r, want[0])
        else:
            P.eq("value, uncertainty and number as asked for", r, tuple(want))


@unit("estimate_a", ["C11", "C14"], [AFQ + "estimate_a"], cases=200)
class EstimateA(Unit):
    def inputs(self, V):
        n = V.int("n", 0, 8)
        return {"x": V.arr("x", n), "mc": V.real("mc"), "dm": V.real("dm"), "sf": opt(V, "scaling_factor"),
                "m_ref": opt(V, "m_ref"), "b": opt(V, "b_value"),
                "extra": V.real("extra") if V.choice("keyword arguments", GIVEN) else None,
                "res": results(V, ["a_value"])}

    def want(self, a):
        w = {"magnitudes": a["x"], "mc": a["mc"], "delta_m": a["dm"], "scaling_factor": a["sf"],
             "m_ref": a["m_ref"], "b_value": a["b"]}
        if a["extra"] is not None:
            w["extra"] = a["extra"]
        return w

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        kw = {} if a["extra"] is None else {"extra": a["extra"]}
        return get("analysis.avalue:estimate_a")(
            a["x"], a["mc"], a["dm"], scaling_factor=a["sf"], m_ref=a["m_ref"], b_value=a["b"],
            method=abstract(S, a, A_SIG, self.want, a["res"]), **kw)

    def post(self, P, S, a, r):
        P.eq("a-value of the estimator", r, a["res"]["a_value"])


class Cat:
    """a catalogue: columns and attributes"""

    def __init__(self, cols, **attrs):
        self.__dict__.update(cols)
        self.__dict__.update(attrs)
        self.columns = list(cols)
        self._cols = cols
        self._required_cols = ["magnitude"]

    def __getitem__(self, k):
        return self._cols[k]


class Method(Unit):
    max_paths = 8000
    split = {"delta_m given": 2, "attribute delta_m given": 2}
    needs = ("delta_m",)

    def inputs(self, V):
        n = V.int("n", 0, 6)
        a = {"x": V.arr("x", n), "t": V.arr("t", n), "wcol": None}
        if V.choice("catalogue has weights", GIVEN):
            a["wcol"] = V.arr("weight", n)
        a["self"] = {k: opt(V, "attribute " + k) for k in ("mc", "delta_m", "b_value")}
        a["self"]["a_value"] = None
        a["args"] = {k: opt(V, k) for k in self.needs}
        if V.choice("missing arguments are left out", GIVEN):
            a["args"] = {k: v for k, v in a["args"].items() if v is not None}
        a["extra"] = V.real("extra") if V.choice("keyword arguments", GIVEN) else None
        self.more(V, a)
        return a

    def more(self, V, a):
        pass

    def value(self, a, k):
        v = a["args"].get(k)
        return a["self"][k] if v is None else v

    def raises(self, S, a):
        return [(self.value(a, k) is None, ValueError, f"{k} is missing") for k in self.needs if k in ("mc", "delta_m")]

    def run(self, a):
        S = SYM if Ctx.cur is not None else CON
        cols = {"magnitude": a["x"], "time": a["t"]}
        if a["wcol"] is not None:
            cols["weight"] = a["wcol"]
        a["cat"] = Cat(cols, **a["self"])
        kw = dict(a["args"])
        if a["extra"] is not None:
            kw["extra"] = a["extra"]
        return self.call(S, a, get(CAT + ":Catalog"), a["cat"], kw)

    def unchanged(self, P, S, a, *stored):
        for k in ("mc", "delta_m", "b_value", "a_value"):
            if k not in stored:
                P.check(f"attribute {k} is not changed", same(S, getattr(a["cat"], k), a["self"][k]))


@unit("catalog_estimate_b", ["C11"], [CFQ + "Catalog.estimate_b"], cases=300)
class CatB(Method):
    needs = ("mc", "delta_m")
    split = {"mc given": 2, "delta_m given": 2, "attribute delta_m given": 2}

    def more(self, V, a):
        n = V.int("n_w", 0, 6)
        a["w"] = V.arr("w", n) if V.choice("weights given", GIVEN) else None
        a["supported"] = V.choice("estimator supports weights", GIVEN)
        a["times"] = V.choice("estimator uses times", GIVEN)
        a["res"] = results(V, ["b_value", "std"])

    def call(self, S, a, C, cat, kw):
        if a["w"] is not None:
            kw["weights"] = a["w"]

        def want(a):
            w = {"magnitudes": a["x"], "mc": self.value(a, "mc"), "delta_m": self.value(a, "delta_m"),
                 "weights": (a["w"] if a["w"] is not None else a["wcol"]) if a["supported"] else None}
            if a["times"]:
                w["times"] = a["t"]
            if a["extra"] is not None:
                w["extra"] = a["extra"]
            return w
        E = abstract(S, a, B_SIG, want, a["res"])
        if a["times"]:
            class F(E):
                def calculate(self, magnitudes, mc, delta_m, times=None, weights=None, **kw):
                    kw = dict(kw, **({} if times is None else {"times": times}))
                    return E.calculate(self, magnitudes, mc, delta_m, weights=weights, **kw)
        else:
            class F(E):
                def calculate(self, magnitudes, mc, delta_m, weights=None, **kw):
                    return E.calculate(self, magnitudes, mc, delta_m, weights=weights, **kw)
        return C.estimate_b(cat, method=F, **kw)

    def post(self, P, S, a, r):
        P.eq("the estimator is returned", (r.b_value, r.std), (a["res"]["b_value"], a["res"]["std"]))
        P.eq("b-value stored", a["cat"].b_value, a["res"]["b_value"])
        self.unchanged(P, S, a, "b_value")


@unit("catalog_estimate_a", ["C11"], [CFQ + "Catalog.estimate_a"], cases=300)
class CatA(Method):
    needs = ("mc", "delta_m")
    split = {"mc given": 2, "delta_m given": 2, "attribute delta_m given": 2}

    def more(self, V, a):
        a["sf"], a["m_ref"], a["b"] = opt(V, "scaling_factor"), opt(V, "m_ref"), opt(V, "b_value argument")
        a["times"] = V.choice("estimator uses times", GIVEN)
        a["res"] = results(V, ["a_value"])

    def call(self, S, a, C, cat, kw):
        def want(a):
            w = {"magnitudes": a["x"], "mc": self.value(a, "mc"), "delta_m": self.value(a, "delta_m"),
                 "scaling_factor": a["sf"], "m_ref": a["m_ref"], "b_value": a["b"]}
            if a["times"]:
                w["times"] = a["t"]
            if a["extra"] is not None:
                w["extra"] = a["extra"]
            return w
        E = abstract(S, a, A_SIG, want, a["res"])
        if a["times"]:
            class F(E):
                def calculate(self, magnitudes, mc, delta_m, times=None, scaling_factor=None, m_ref=None,
                              b_value=None, **kw):
                    kw = dict(kw, **({} if times is None else {"times": times}))
                    return E.calculate(self, magnitudes, mc, delta_m, scaling_factor, m_ref, b_value, **kw)
        else:
            class F(E):
                def calculate(self, magnitudes, mc, delta_m, scaling_factor=None, m_ref=None, b_value=None, **kw):
                    return E.calculate(self, magnitudes, mc, delta_m, scaling_factor, m_ref, b_value, **kw)
        for k, n in (("sf", "scaling_factor"), ("m_ref", "m_ref"), ("b", "b_value")):
            if a[k] is not None:
                kw[n] = a[k]
        return C.estimate_a(cat, method=F, **kw)

    def post(self, P, S, a, r):
        P.eq("the estimator is returned", r.a_value, a["res"]["a_value"])
        P.eq("a-value stored", a["cat"].a_value, a["res"]["a_value"])
        self.unchanged(P, S, a, "a_value")


INFO = {"info": "as returned"}


class McMethod(Method):
    function = ""

    def more(self, V, a):
        a["mc"] = V.real("returned mc") if V.choice("mc found", GIVEN) else None
        a["pars"] = {k: f(V) for k, f in self.pars.items() if V.choice(k + " given", GIVEN)}

    def call(self, S, a, C, cat, kw):
        real = get("analysis.estimate_mc:" + self.function)
        sig = inspect.signature(real)

        def callee(*args, **k):
            b = sig.bind(*args, **k)
            b.apply_defaults()
            got = dict(b.arguments)
            got.update(got.pop("kwargs", {}))
            want = {n: p.default for n, p in sig.parameters.items() if n != "kwargs"}
            want["magnitudes"] = a["x"]
            want.update(a["pars"])
            if a["extra"] is not None and "delta_m" in self.needs:
                want["extra"] = a["extra"]
            for n in self.needs:
                want[n] = self.value(a, n)
            handed(S, self.function, got, want)
            return a["mc"], INFO
        if "delta_m" not in self.needs:
            kw = {}
        kw.update(a["pars"])
        with replaced(CAT, **{self.function: callee}):
            return getattr(C, self.function)(cat, **kw)

    def post(self, P, S, a, r):
        P.check("the result is returned", same(S, r[0], a["mc"]))
        P.check("with its diagnostics", r[1] is INFO)
        P.check("mc stored", same(S, a["cat"].mc, a["mc"]))
        self.unchanged(P, S, a, "mc")


real = lambda name: (lambda V: V.real(name))
flag = lambda name: (lambda V: V.choice(name, [True, False]))
token = lambda o: (lambda V: o)
CANDS = [1.0, 1.1]


@unit("catalog_mc_ks", ["C11"], [CFQ + "Catalog.estimate_mc_ks"], cases=300)
class CatKs(McMethod):
    function = "estimate_mc_ks"
    needs = ("delta_m", "b_value")
    pars = {"mcs_test": token(CANDS), "p_value_pass": real("p_value_pass"), "stop_when_passed": token(False),
            "ks_ds_list": token(CANDS)}
    split = {"delta_m given": 2, "attribute delta_m given": 2, "b_value given": 2, "mc found": 2}


@unit("catalog_mc_b_stability", ["C11"], [CFQ + "Catalog.estimate_mc_b_stability"], cases=300)
class CatStab(McMethod):
    function = "estimate_mc_b_stability"
    pars = {"mcs_test": token(CANDS), "b_method": token(Method),
            "stability_range": real("stability_range")}


@unit("catalog_mc_maxc", ["C11"], [CFQ + "Catalog.estimate_mc_maxc"], cases=200)
class CatMaxc(McMethod):
    function = "estimate_mc_maxc"
    needs = ()
    pars = {"correction_factor": real("correction_factor")}

    def more(self, V, a):
        super().more(V, a)
        a["pars"]["fmd_bin"] = V.real("fmd_bin")


def outcome(f):
    """the result, or the class of the exception"""
    try:
        return f()
    except Exception as e:
        if limits.stand_in(e):
            raise
        return type(e)


def real_catalog(g, width=0):
    """a catalogue with its own magnitudes, times and weights, on the grid mc + k delta_m"""
    import pandas as pd
    n = int(g.integers(4, 40))
    c = Catalogue(g, n)
    while c.dm < width:
        c = Catalogue(g, n)
    d = {"magnitude": c.x, "time": pd.to_datetime("2020-01-01") + pd.to_timedelta(g.permutation(n) * 3600.5, unit="s"),
         "latitude": g.random(n), "longitude": g.random(n), "depth": g.random(n), "magnitude_type": ["Mw"] * n}
    if g.random() < 0.5:
        d["weight"] = gen_weights(g, n) + 0.1
    cat = get(CAT + ":Catalog")(d)
    if g.random() < 0.5:
        cat.index = g.permutation(n) * 3
    return cat, c


@unit("catalog_estimates", ["C11", "C14"], [CFQ + "Catalog.estimate_b", CFQ + "Catalog.estimate_a",
                                            CFQ + "_check_catalog_cols"], symbolic=False, cases=250,
      why_bounded="pandas catalogues; the methods themselves are proved over arbitrary columns and attributes "
                  "(catalog_estimate_b, catalog_estimate_a)")
class Real(Unit):
    def inputs(self, V):
        a = {}
        cat, c = real_catalog(V.rng)
        a["c"], a["cat"] = c, V.obj("cat", None, lambda g: cat)
        V.tracked.clear()
        a["own"] = V.choice("attributes set", [True, False])
        a["kind"] = V.choice("kind", ["b", "a"])
        a["method"] = V.choice("method", METHODS if a["kind"] == "b" else
                               ["ClassicAValueEstimator", "APositiveAValueEstimator", "AMorePositiveAValueEstimator"])
        a["w"] = None
        if a["kind"] == "b" and V.choice("weights given", GIVEN):
            a["w"] = gen_weights(V.rng, c.n) + 0.1
        a["before"] = cat.copy()
        return a

    def run(self, a):
        cat, c = a["cat"], a["c"]
        kw = {}
        if a["own"]:
            cat.mc, cat.delta_m = c.mc, c.dm
        else:
            cat.mc, cat.delta_m = 77.0, 3.0
            kw = {"mc": c.mc, "delta_m": c.dm}
        if a["w"] is not None:
            kw["weights"] = a["w"]
        if a["method"] == "AMorePositiveAValueEstimator":
            kw["b_value"] = 1.1
        est = get(("analysis.bvalue:" if a["kind"] == "b" else "analysis.avalue:") + a["method"])
        a["kw"], a["est"] = kw, est
        return outcome(lambda: getattr(cat, "estimate_" + a["kind"])(method=est, **kw))

    def post(self, P, S, a, r):
        cat, c = a["cat"], a["c"]
        kw = {k: v for k, v in a["kw"].items() if k == "b_value"}
        if a["kind"] == "b":
            w = a["w"] if a["w"] is not None else (np.array(cat["weight"]) if "weight" in cat else None)
            kw["weights"] = w
        e = a["est"]()
        if "times" in inspect.signature(e.calculate).parameters:
            kw["times"] = np.array(cat["time"])
        want = outcome(lambda: e.calculate(np.array(a["before"]["magnitude"]), c.mc, c.dm, **kw))
        if isinstance(want, type) or isinstance(r, type):
            P.check("refuses what the estimator refuses", r is want)
            return
        k = a["kind"] + "_value"
        P.eq("value of the estimator on the catalogue's own data", getattr(r, k), getattr(e, k))
        P.eq("value stored", getattr(cat, k), getattr(e, k))
        if a["kind"] == "b":
            P.eq("number of events", r.n, e.n)
        P.check("rows unchanged", cat.drop(columns=[]).equals(a["before"]) and list(cat.index) == list(a["before"].index))


@unit("catalog_mc_estimates", ["C11", "C14"], [CFQ + "Catalog." + f for f in (
    "estimate_mc_ks", "estimate_mc_b_stability", "estimate_mc_maxc")], symbolic=False, cases=150,
      why_bounded="pandas catalogues and simulated distances; the methods themselves are proved over arbitrary columns "
                  "and attributes (catalog_mc_ks, catalog_mc_b_stability, catalog_mc_maxc)")
class RealMc(Unit):
    """the method of a catalogue gives what the function gives on its magnitudes, and stores it"""

    def inputs(self, V):
        g = V.rng
        cat, c = real_catalog(g, 0.05)
        a = {"c": c, "cat": V.obj("cat", None, lambda g: cat), "x": np.array(cat["magnitude"])}
        V.tracked.clear()
        a["own"] = V.choice("attributes set", [True, False])
        a["kind"] = V.choice("method", ["maxc", "b_stability", "ks", "ks"])
        kw = {}
        if a["kind"] == "maxc":
            kw["fmd_bin"] = V.choice("fmd_bin", [c.dm, 2 * c.dm])
            if V.choice("correction given", GIVEN):
                kw["correction_factor"] = V.choice("correction", [0.0, 0.2, 0.1])
        else:
            if V.choice("candidates given", GIVEN):
                kw["mcs_test"] = candidates(g, c.dm, a["x"])
            if V.choice("method given", GIVEN):
                # the uncertainty of the last one is drawn
                kw["b_method"] = get(B + V.choice("b_method", METHODS[:3]))
            kw["stop_when_passed"] = V.choice("stop_when_passed", [True, False])
        if a["kind"] == "b_stability":
            kw["stability_range"] = V.choice("stability_range", [2.1 * c.dm, 3.5 * c.dm, 0.5])
        if a["kind"] == "ks":
            kw["n"] = V.int("simulations", 1, 8)
            kw["p_value_pass"] = V.choice("p_value_pass", [0.1, 0.4, 0.0])
        a["kw"], a["b"] = kw, V.choice("b", [None, 0.9]) if a["kind"] == "ks" else None
        a["seed"] = int(g.integers(2 ** 31))
        V.values.update(kw={k: getattr(v, "__name__", v) for k, v in kw.items()}, delta_m=c.dm)
        a["before"] = cat.copy()
        return a

    def run(self, a):
        cat, c, kw = a["cat"], a["c"], dict(a["kw"])
        if a["own"]:
            cat.delta_m, cat.b_value = c.dm, a["b"]
        elif a["kind"] != "maxc":
            cat.delta_m = 3.0
            kw["delta_m"] = c.dm
            if a["kind"] == "ks" and a["b"] is not None:
                cat.b_value, kw["b_value"] = 5.0, a["b"]
        np.random.seed(a["seed"])
        return outcome(lambda: getattr(cat, "estimate_mc_" + a["kind"])(**kw))

    def post(self, P, S, a, r):
        kw = dict(a["kw"])
        if a["kind"] != "maxc":
            kw["delta_m"] = a["c"].dm
        if a["kind"] == "ks" and a["b"] is not None:
            kw["b_value"] = a["b"]
        np.random.seed(a["seed"])
        want = outcome(lambda: get("analysis.estimate_mc:estimate_mc_" + a["kind"])(np.array(a["x"]), **kw))
        if isinstance(want, type) or isinstance(r, type):
            P.check("refuses what the function refuses", r is want)
            return
        (mc, info), (got, more) = want, r
        P.check("completeness of the function", got is None and mc is None or got == mc)
        P.check("stored", a["cat"].mc is None and mc is None or a["cat"].mc == mc)
        P.eq("the same diagnostics", sorted(more), sorted(info))
        for k in info:
            if k != "b_method":
                same_ = repr(np.asarray(more.get(k), dtype=object).tolist()) == \
                    repr(np.asarray(info[k], dtype=object).tolist())
                P.check(f"diagnostic {k}", same_)
        P.check("rows unchanged", a["cat"].equals(a["before"]) and list(a["cat"].index) == list(a["before"].index))


@unit("convenience_functions", ["C11", "C14"], [BFQ + "estimate_b", AFQ + "estimate_a"], symbolic=False, cases=250,
      why_bounded="with the estimators of the package; the functions are proved over arbitrary estimators "
                  "(estimate_b, estimate_a)")
class RealFunctions(Unit):
    def inputs(self, V):
        g = V.rng
        c = Catalogue(g, int(g.integers(3, 30)))
        a = {"c": c, "x": V.arr("x", c.n, gen=lambda g, k: c.x.copy()), "kind": V.choice("kind", ["b", "a"])}
        kw = {}
        if a["kind"] == "b":
            a["method"] = V.choice("method", METHODS)
            if V.choice("weights given", GIVEN):
                kw["weights"] = V.arr("w", c.n, gen=lambda g, k: gen_weights(g, k) + 0.1)
            a["par"] = V.choice("b_parameter", ["b_value", "beta", None])
            a["n"] = V.choice("return_n", GIVEN)
            # the uncertainty of this one is drawn, and takes long
            a["std"] = V.choice("return_std", GIVEN) and not a["method"].startswith("BMore")
        else:
            a["method"] = V.choice("method", ["ClassicAValueEstimator", "APositiveAValueEstimator",
                                              "AMorePositiveAValueEstimator"])
            if V.choice("reference given", GIVEN):
                kw["m_ref"], kw["b_value"] = V.choice("m_ref", [0.0, c.mc + 1]), 1.1
            elif a["method"].startswith("AMore"):
                kw["b_value"] = 0.8
            if V.choice("scaling given", GIVEN):
                kw["scaling_factor"] = 2.5
        if "Positive" in a["method"] and (a["kind"] == "a" or V.choice("times given", GIVEN)):
            kw["times"] = V.arr("times", c.n, gen=lambda g, k: g.permutation(k).astype(float))
        a["kw"] = kw
        V.values["kw"] = kw
        return a

    def run(self, a):
        c, kw = a["c"], dict(a["kw"])
        m = get((B if a["kind"] == "b" else "analysis.avalue:") + a["method"])
        if a["kind"] == "b":
            if a["par"]:
                kw["b_parameter"] = a["par"]
            kw.update(return_std=a["std"], return_n=a["n"])
        f = get((B if a["kind"] == "b" else "analysis.avalue:") + "estimate_" + a["kind"])
        return outcome(lambda: f(a["x"], c.mc, c.dm, method=m, **kw))

    def direct(self, a):
        e = get((B if a["kind"] == "b" else "analysis.avalue:") + a["method"])()
        e.calculate(np.array(a["x"]), mc=a["c"].mc, delta_m=a["c"].dm, **a["kw"])
        if a["kind"] == "a":
            return (e.a_value,)
        beta = a["par"] == "beta"
        return (e.beta if beta else e.b_value,) + ((e.std_beta if beta else e.std,) if a["std"] else ()) + \
            ((e.n,) if a["n"] else ())

    def post(self, P, S, a, r):
        want = outcome(lambda: self.direct(a))
        if isinstance(want, type) or isinstance(r, type):
            P.check("refuses what the estimator refuses", r is want)
        else:
            P.eq("the values of the estimator", r if len(want) > 1 else (r,), want)
