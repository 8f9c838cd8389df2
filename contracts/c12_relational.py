"""C12, C13, C14: two runs of the same call compared (estimator histories, both settings of the warnings option,
arguments before and after). Bounded companions of the per-function contracts."""
import copy

import numpy as np

from .common import Unit, get, mod, unit

B_EST = ["ClassicBValueEstimator", "UtsuBValueEstimator", "BPositiveBValueEstimator", "BMorePositiveBValueEstimator"]
A_EST = ["ClassicAValueEstimator", "APositiveAValueEstimator", "AMorePositiveAValueEstimator"]


def estimator(name):
    return getattr(mod("analysis"), name)


class Sample:
    """a small catalogue, degenerate ones included"""

    def __init__(self, g):
        self.g = g
        self.dm = float(g.choice([0.1, 0.2, 0.5, 0.0], p=[0.5, 0.2, 0.15, 0.15]))
        n = int(g.choice([0, 1, 2, 3, 6, 20, 60, 200], p=[0.06, 0.08, 0.08, 0.08, 0.1, 0.25, 0.2, 0.15]))
        self.mc = float(g.choice([0.0, 1.0, -0.5, 2.0]))
        x = g.exponential(0.6, n) - (0.3 if g.random() < 0.5 else 0)
        if self.dm:
            x = np.round(np.round(x / self.dm) * self.dm, 6)
        else:
            x = np.round(x, 3)
        self.m = np.round(x + self.mc, 6)
        if n and g.random() < 0.12:
            self.m[:] = self.m[0]
        if n and g.random() < 0.12:
            self.m[g.integers(n)] = np.nan
        if g.random() < 0.1:
            self.m = self.m - 5
        t = np.sort(g.integers(0, 10 ** 6, n)) + np.arange(n)
        if g.random() < 0.4:
            g.shuffle(t)
        self.t = np.datetime64("2020-01-01T00:00:00") + t.astype("timedelta64[s]")
        self.w = None if g.random() < 0.5 else np.round(g.random(n) + (0.2 if g.random() < 0.8 else 0), 2)
        if self.w is not None and n and g.random() < 0.1:
            self.w[:] = 0
        self.n = n

    def mags(self):
        k = self.g.integers(8)
        if k == 0:
            return self.m.tolist()
        if k == 1:
            import pandas as pd
            return pd.Series(self.m, index=self.g.permutation(self.n) + 2)
        return self.m.copy()

    def copies(self):
        c = lambda x: None if x is None else x.copy()
        return {"times": c(self.t), "weights": c(self.w)}


def b_args(s, name):
    kw = {"mc": s.mc, "delta_m": s.dm}
    if s.g.random() < 0.6:
        kw["weights"] = s.copies()["weights"]
    if name.startswith("BPos") or name.startswith("BMore"):
        kw["times"] = s.copies()["times"] if s.g.random() < 0.8 else None
        if s.g.random() < 0.5:
            kw["dmc"] = float(s.g.choice([s.dm, s.dm * 2, 0.05, 0.0]))
    if kw.get("weights") is None:
        kw.pop("weights", None)
    return kw


def a_args(s, name):
    g = s.g
    kw = {"mc": s.mc, "delta_m": s.dm}
    if g.random() < 0.5:
        kw["scaling_factor"] = float(g.choice([1, 10.5]))
    if g.random() < 0.5:
        kw["m_ref"] = float(g.choice([0, 2.5]))
        kw["b_value"] = float(g.choice([0, 1, 0.8]))
    if not name.startswith("Classic"):
        kw["times"] = s.copies()["times"]
        kw["b_value"] = 1.0 if name.startswith("AMore") else kw.get("b_value")
        if g.random() < 0.5:
            kw["dmc"] = float(g.choice([s.dm, s.dm * 2, 0.05]))
    return kw


def plain(x, depth=0):
    """results as plain values"""
    if isinstance(x, dict):
        return {str(k): plain(v, depth) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth) for v in x]
    if isinstance(x, np.ndarray):
        return [plain(v, depth) for v in x.tolist()] if x.dtype.kind != "M" else x.astype(str).tolist()
    if isinstance(x, (np.generic,)):
        return x.item()
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if hasattr(x, "to_dict") and hasattr(x, "columns"):
        return {"columns": {c: [str(v) for v in x[c]] for c in x.columns}, "index": [str(i) for i in x.index],
                "attributes": {k: str(getattr(x, k, None)) for k in getattr(x, "_metadata", [])}}
    if hasattr(x, "to_numpy"):
        return plain(x.to_numpy())
    if hasattr(x, "calculate"):
        return state(x)
    return str(type(x))


STATE = ["b_value", "beta", "std", "std_beta", "value", "a_value", "n", "idx", "magnitudes", "weights", "mc", "delta_m",
         "dmc", "times"]


def state(e):
    out = {}
    for k in STATE:
        try:
            out[k] = plain(getattr(e, k))
        except AttributeError:
            out[k] = "absent"
        except Exception as ex:
            out[k] = type(ex).__name__
    return out


def equal(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def outcome(f, seed):
    """the result, or the class of the error, with all random draws determined by the seed"""
    np.random.seed(seed)
    rng = np.random.default_rng
    np.random.default_rng = lambda s=None: rng(seed if s is None else s)
    try:
        return plain(f())
    except Exception as e:
        return "raises " + type(e).__name__
    finally:
        np.random.default_rng = rng


def first_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b or not equal(a[k], b[k]):
                return first_difference(a[k], b.get(k), f"{path}.{k}")
    return f"{path}: {str(a)[:300]} | {str(b)[:300]}"


# -- calls -----------------------------------------------------------------

E = "analysis.estimate_mc"
S1 = "analysis.b_significant"
U = "analysis.bvalue.utils"
SD = "utils.simulate_distributions"
BN = "utils.binning"


def method(g):
    return estimator(B_EST[int(g.integers(2 if g.random() < 0.7 else 4))])


def mcs(s):
    if s.g.random() < 0.3:
        return None
    k = int(s.g.integers(1, 5))
    w = s.dm or 0.1
    return np.round(s.mc + np.arange(k) * w, 6)


def c_estimator(s):
    a = s.g.random() < 0.4
    name = str(s.g.choice(A_EST if a else B_EST))
    e = estimator(name)()
    kw = (a_args if a else b_args)(s, name)

    def f(m, **kw):
        e.calculate(m, **kw)
        return state(e)
    return name, f, [s.mags()], kw


def c_lilliefors(s):
    name = str(s.g.choice(B_EST))
    e = estimator(name)()

    def f(m, **kw):
        e.calculate(m, **kw)
        return e.p_lilliefors(n=5)
    return name + ".p_lilliefors", f, [s.mags()], b_args(s, name)


def c_estimate_b(s):
    name = str(s.g.choice(B_EST))
    kw = b_args(s, name)
    kw.update(b_parameter=str(s.g.choice(["b_value", "beta"])), return_std=bool(s.g.random() < 0.5),
              return_n=bool(s.g.random() < 0.5), method=estimator(name))
    return "estimate_b", mod("analysis").estimate_b, [s.mags()], kw


def c_estimate_a(s):
    name = str(s.g.choice(A_EST))
    kw = dict(a_args(s, name), method=estimator(name))
    return "estimate_a", mod("analysis").estimate_a, [s.mags()], kw


def c_ks(s):
    g = s.g
    kw = {"n": 4}
    if g.random() < 0.5:
        kw["weights"] = s.copies()["weights"]
    if g.random() < 0.4:
        kw["ks_ds"] = [round(float(x), 3) for x in g.random(int(g.integers(1, 5)))]
    b = float(g.choice([1.0, 0.7, 0.0, -1.0, np.nan, np.inf], p=[0.4, 0.3, 0.1, 0.05, 0.1, 0.05]))
    return "ks_test_gr", get(E + ":ks_test_gr"), [s.mags(), s.mc, s.dm, b], kw


def c_mc_ks(s):
    g = s.g
    kw = {"n": 4, "mcs_test": mcs(s), "p_value_pass": float(g.choice([0.1, 0.0, 0.9])),
          "stop_when_passed": bool(g.random() < 0.6), "b_method": method(g)}
    if g.random() < 0.4:
        kw["b_value"] = float(g.choice([1.0, 0.8]))
    if kw["mcs_test"] is not None and g.random() < 0.3:
        kw["ks_ds_list"] = [[round(float(x), 3) for x in g.random(3)] for _ in kw["mcs_test"]]
    return "estimate_mc_ks", get(E + ":estimate_mc_ks"), [s.mags(), s.dm], kw


def c_maxc(s):
    return "estimate_mc_maxc", get(E + ":estimate_mc_maxc"), [s.mags(), s.dm or 0.1], {
        "correction_factor": float(s.g.choice([0.2, 0.0]))}


def c_stability(s):
    g = s.g
    kw = {"mcs_test": mcs(s), "stop_when_passed": bool(g.random() < 0.6), "b_method": method(g),
          "stability_range": float(g.choice([0.5, 0.2, 1.0]))}
    return "estimate_mc_b_stability", get(E + ":estimate_mc_b_stability"), [s.mags(), s.dm or 0.1], kw


def c_morans(s):
    g = s.g
    v = s.m.copy()
    n = len(v)
    w = None
    if g.random() < 0.5:
        w = np.triu((g.random((n, n)) < 0.5).astype(float), 1)
        if g.random() < 0.15:
            w[:] = 0
        elif g.random() < 0.2:
            w = w + w.T
    if g.random() < 0.2 and n:
        v[g.random(n) < 0.6] = np.nan
    return "est_morans_i", get(S1 + ":est_morans_i"), [v], {"w": w, "mean_v": None if g.random() < 0.6 else 1.0}


def c_partition(s):
    g = s.g
    n = len(s.m)
    cuts = np.sort(g.integers(0, n + 1, int(g.integers(0, 4))))
    lm, lt = np.array_split(s.m, cuts), np.array_split(s.t, cuts)
    a = g.random() < 0.3
    e = estimator(str(g.choice(A_EST[:2] if a else B_EST)))
    kw = {"method": e}
    if a and g.random() < 0.5:
        kw["list_scaling"] = [float(k + 1) for k in range(len(lm))]
    mc = s.mc if g.random() < 0.5 else [s.mc] * len(lm)
    return "values_from_partitioning", get(S1 + ":values_from_partitioning"), [list(lm), list(lt), mc, s.dm], kw


def c_significant(s):
    g = s.g
    kw = {"method": method(g), "conservative": bool(g.random() < 0.5), "min_num": int(g.choice([2, 5]))}
    if g.random() < 0.5:
        kw["x_variable"] = g.permutation(s.n).astype(float)
    mc = s.mc if g.random() < 0.5 else np.full(s.n, s.mc)
    n_m = int(g.choice([3, 5, 10, 30, 200]))
    return "b_significant_1D", get(S1 + ":b_significant_1D"), [s.mags(), mc, s.dm, s.copies()["times"], n_m], kw


def c_small(s):
    g = s.g
    m, n = s.mags(), s.n
    d = s.dm or 0.1
    calls = [
        ("cut_constant_idx", S1 + ":cut_constant_idx", [s.m.copy(), int(g.integers(1, 8))], {"offset": int(g.integers(3))}),
        ("transform_n", S1 + ":transform_n", [s.m.copy(), 1.0, 20, 50], {}),
        ("cdf_discrete_exp", E + ":cdf_discrete_exp", [s.m.copy(), s.mc, s.dm, 2.0], {}),
        ("shi_bolt_confidence", U + ":shi_bolt_confidence", [s.m.copy(), 1.1], {"weights": s.copies()["weights"]}),
        ("find_next_larger", U + ":find_next_larger", [s.m.copy(), s.dm, None], {}),
        ("make_more_incomplete", U + ":make_more_incomplete", [s.m.copy(), s.copies()["times"]],
         {"delta_t": np.timedelta64(3600, "s"), "return_idx": bool(g.random() < 0.5)}),
        ("bootstrap_std", U + ":bootstrap_std", [s.m.copy(), np.mean], {"n": 5, "random_state": 3}),
        ("bin_to_precision", BN + ":bin_to_precision", [m, d], {}),
        ("binning_test", BN + ":binning_test", [m, d], {"check_larger_binning": bool(g.random() < 0.5)}),
        ("get_fmd", BN + ":get_fmd", [s.m.copy(), d],
         {"weights": s.copies()["weights"], "bin_position": str(g.choice(["center", "left"]))}),
        ("get_cum_fmd", BN + ":get_cum_fmd", [s.m.copy(), d],
         {"weights": s.copies()["weights"], "bin_position": str(g.choice(["center", "left"]))}),
        ("simulate_magnitudes", SD + ":simulate_magnitudes", [n, np.full(n, 2.0), s.mc], {"mag_max": s.mc + 3}),
        ("simulate_magnitudes_binned", SD + ":simulate_magnitudes_binned",
         [n, np.full(n, 1.0), s.mc, d], {"mag_max": None}),
        ("dither_magnitudes", SD + ":dither_magnitudes", [s.m.copy(), d, 1.0], {}),
        ("ks_test_gr_lilliefors", "analysis.lilliefors:ks_test_gr_lilliefors", [s.m.copy(), s.mc], {}),
    ]
    nm, f, args, kw = calls[int(g.integers(len(calls)))]
    return nm, get(f), args, kw


def c_table(s):
    g = s.g
    k = g.random() < 0.7
    years = g.integers(1900, 2000, s.n)
    t = (years - 1970).astype("datetime64[Y]").astype("datetime64[D]")
    K = int(g.integers(1, 4))
    table = np.column_stack([s.mc - 0.05 + np.arange(K) * 0.5, 1980 - 25.0 * np.arange(K)])
    kw = {"last_year": None if g.random() < 0.5 else 2000, "b_parameter": str(g.choice(["b_value", "beta"]))}
    m = s.m.copy()
    if k:
        return "estimate_b_kijko_smit", get("analysis.bvalue.kijko_smit:estimate_b_kijko_smit"), [m, t, table], kw
    mx = s.mc + 9.95
    return "estimate_b_weichert", get("analysis.bvalue.weichert:estimate_b_weichert"), [m, t, table, mx], kw


def c_plot(s):
    import matplotlib.pyplot as plt
    g = s.g

    def f(*args, **kw):
        ax = get("plots.statistical:plot_b_significant_1D")(*args, **kw)
        r = [np.asarray(x.get_ydata(), float) for x in ax.lines]
        plt.close("all")
        return r
    mc = s.mc if g.random() < 0.5 else np.full(s.n, s.mc)
    return "plot_b_significant_1D", f, [s.mags(), mc, s.dm, s.copies()["times"]], {
        "n_ms": np.array([3, 5, 20]) if g.random() < 0.7 else None,
        "x_variable": None if g.random() < 0.5 else g.permutation(s.n).astype(float)}


def catalogue(s):
    import pandas as pd
    n = s.n
    g = s.g
    cat = mod("catalogs.catalog").Catalog({
        "magnitude": s.m.copy(), "time": pd.to_datetime(s.t.copy()), "latitude": np.round(g.uniform(-80, 80, n), 2),
        "longitude": np.round(g.uniform(-170, 170, n), 2), "depth": np.round(g.uniform(0, 20, n), 1)})
    if n and g.random() < 0.4:
        cat.index = g.permutation(n) + 5
    if g.random() < 0.5:
        cat.mc, cat.delta_m = s.mc, s.dm
    return cat


def c_catalog(s):
    g = s.g
    cat = catalogue(s)
    name = str(g.choice(["estimate_b", "estimate_a", "estimate_mc_maxc", "estimate_mc_ks", "estimate_mc_b_stability",
                         "bin_magnitudes"]))
    kw = {}
    if name in ("estimate_b", "estimate_a"):
        if g.random() < 0.7:
            kw = {"mc": s.mc, "delta_m": s.dm}
    elif name == "estimate_mc_maxc":
        kw = {"fmd_bin": s.dm or 0.1}
    elif name == "estimate_mc_ks":
        kw = {"n": 4, "delta_m": s.dm, "mcs_test": mcs(s)}
    else:
        kw = {"delta_m": s.dm or 0.1}

    def f(cat, **kw):
        r = getattr(cat, name)(**kw)
        return [plain(r), {k: plain(getattr(cat, k)) for k in ("mc", "delta_m", "b_value", "a_value")}]
    return "Catalog." + name, f, [cat], kw


def c_decluster(s):
    d = mod("analysis.declustering")
    w = mod("analysis.declustering.distance_time_windows")
    s.m = np.abs(np.nan_to_num(s.m))[:40]
    s.t, s.n = s.t[:40], len(s.m)
    cat = catalogue(s)
    win = getattr(w, str(s.g.choice(["GardnerKnopoffWindow", "UhrhammerWindow"])))()
    return "GardnerKnopoffType1", lambda c: d.GardnerKnopoffType1(win, 0.5).decluster(c), [cat], {}


CALLS = [c_estimator, c_lilliefors, c_estimate_b, c_estimate_a, c_ks, c_mc_ks, c_maxc, c_stability, c_morans,
         c_partition, c_significant, c_small, c_table, c_plot, c_catalog, c_decluster]
WEIGHT = np.array([3, 1, 2, 1, 4, 2, 1, 2, 3, 2, 3, 3, 1, 0.5, 2, 0.5])


def draw(V, calls=None, weight=None):
    g = V.rng
    calls = calls or CALLS
    p = np.array(WEIGHT if weight is None else weight, float)
    s = Sample(g)
    nm, f, args, kw = calls[int(g.choice(len(calls), p=p / p.sum()))](s)
    V.values.update(call=nm, args=[str(x)[:600] for x in args], kwargs={k: str(v)[:600] for k, v in kw.items()})
    return {"name": nm, "f": f, "args": args, "kw": kw, "seed": V.int("seed", 0, 10 ** 6)}


def option(on):
    get("utils._config:set_option")("warnings", on)


class Relational(Unit):
    frame = False

    def inputs(self, V):
        return {"call": draw(V)}


@unit("option_settings", ["C13"], ["seismostats.utils._config:get_option"], cases=350, symbolic=False,
      why_bounded="relates two runs of whole functions; the per-function contracts do not mention the option")
class Settings(Relational):
    """the same result or the same error with the warnings option on and off"""

    def run(self, a):
        c = a["call"]
        r = []
        for on in (True, False):
            option(on)
            args, kw = copy.deepcopy((c["args"], c["kw"]))
            r.append(outcome(lambda: c["f"](*args, **kw), c["seed"]))
        option(True)
        return r

    def post(self, P, S, a, r):
        if not equal(r[0], r[1]):
            P.failed.append(("same result with warnings on and off", first_difference(*r)))
        P.n += 1


@unit("inputs_unchanged", ["C14"], ["seismostats.analysis.bvalue.base:BValueEstimator.calculate"], cases=350,
      symbolic=False, why_bounded="runs whole functions; the per-function contracts carry the frame obligation")
class Unchanged(Relational):
    """arrays, lists and catalogues passed in are the same after the call, error paths included"""

    def run(self, a):
        c = a["call"]
        old = copy.deepcopy((c["args"], c["kw"]))
        outcome(lambda: c["f"](*c["args"], **c["kw"]), c["seed"])
        return old

    def post(self, P, S, a, r):
        from pyvc.concrete import same
        c = a["call"]
        now = {**dict(enumerate(c["args"])), **c["kw"]}
        old = {**dict(enumerate(r[0])), **r[1]}
        for k in now:
            P.n += 1
            x, y = old[k], now[k]
            if hasattr(x, "columns"):       # estimates are stored as attributes of a catalogue
                import pandas as pd
                ok = pd.DataFrame(x).equals(pd.DataFrame(y)) and list(x.index) == list(y.index) and \
                    list(x.columns) == list(y.columns)
            elif callable(x):
                continue
            else:
                ok = same(x, y)
            if not ok:
                P.failed.append(("arguments are left unchanged", f"{c['name']} changed argument {k}: {x} -> {y}"[:900]))


@unit("estimator_histories", ["C12"], [
    "seismostats.analysis.bvalue.base:BValueEstimator.calculate",
    "seismostats.analysis.avalue.base:AValueEstimator.calculate"], cases=250, symbolic=False,
    why_bounded="sequences of calls; the per-call contracts start from arbitrary earlier attributes")
class Histories(Unit):
    """a used estimator gives what a new one gives"""
    frame = False

    def inputs(self, V):
        g = V.rng
        name = str(g.choice(B_EST + A_EST))
        f = a_args if name in A_EST else b_args
        calls = []
        for k in range(int(g.integers(2, 5))):
            s = Sample(g)
            calls.append((s.mags(), f(s, name), bool(g.random() < 0.4)))
            V.values[f"call {k}"] = f"{calls[-1][0]}; {calls[-1][1]}"[:900]
        V.values["estimator"] = name
        return {"name": name, "calls": calls, "seed": V.int("seed", 0, 10 ** 6)}

    def last(self, e, call, seed):
        r = [outcome(lambda: e.calculate(call[0], **copy.deepcopy(call[1])), seed)]
        ok = not (isinstance(r[0], str) and r[0].startswith("raises"))
        if ok:
            r.append(outcome(lambda: state(e), seed))
            if hasattr(e, "p_lilliefors") and call[2]:
                r.append(outcome(lambda: e.p_lilliefors(n=4), seed))
        return r

    def run(self, a):
        old = estimator(a["name"])()
        for call in a["calls"][:-1]:
            self.last(old, copy.deepcopy(call), a["seed"] + 1)
        return (self.last(estimator(a["name"])(), copy.deepcopy(a["calls"][-1]), a["seed"]),
                self.last(old, copy.deepcopy(a["calls"][-1]), a["seed"]))

    def post(self, P, S, a, r):
        P.n += 1
        if not equal(r[0], r[1]):
            d = next((first_difference(x, y) for x, y in zip(*r) if not equal(x, y)), "")
            P.failed.append(("a used estimator gives what a new one gives", d))
