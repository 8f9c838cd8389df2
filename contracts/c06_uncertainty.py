"""C06: uncertainty of the b-value and conversions."""
import numpy as np

from .common import LN10, Unit, get, gen_weights, mod, stub, unit, wmean, wtot

U = "analysis.bvalue.utils"
FQ = "seismostats.analysis.bvalue.utils:"


@unit("beta_to_b_value", ["C06"], [FQ + "beta_to_b_value"])
class BetaToB(Unit):
    def inputs(self, V):
        return {"beta": V.real("beta")}

    def run(self, a):
        return get(U + ":beta_to_b_value")(a["beta"])

    def post(self, P, S, a, r):
        P.eq("b = beta / ln 10", r, a["beta"] / S.log(10))


@unit("b_value_to_beta", ["C06"], [FQ + "b_value_to_beta"])
class BToBeta(Unit):
    def inputs(self, V):
        return {"b": V.real("b")}

    def run(self, a):
        return get(U + ":b_value_to_beta")(a["b"])

    def post(self, P, S, a, r):
        P.eq("beta = b ln 10", r, a["b"] * S.log(10))


@stub(FQ + "beta_to_b_value", by=["beta_to_b_value"])
def _s1(S, a, ctx):
    return a.beta / S.log(10)


@stub(FQ + "b_value_to_beta", by=["b_value_to_beta"])
def _s2(S, a, ctx):
    return a.b_value * S.log(10)


@unit("conversions_inverse", ["C06"], [])
class Inverse(Unit):
    def inputs(self, V):
        return {"x": V.real("x")}

    def run(self, a):
        f, g = get(U + ":beta_to_b_value"), get(U + ":b_value_to_beta")
        return f(g(a["x"])), g(f(a["x"]))

    def post(self, P, S, a, r):
        P.eq("beta_to_b_value(b_value_to_beta(x)) = x", r[0], a["x"])
        P.eq("b_value_to_beta(beta_to_b_value(x)) = x", r[1], a["x"])


def shi_bolt(S, mags, b, weights, b_parameter):
    n = S.len(mags)
    m = wmean(S, n, lambda i: S.at(mags, i), weights)
    var = wmean(S, n, lambda i: (S.at(mags, i) - m) * (S.at(mags, i) - m), weights)
    tot = wtot(S, n, weights)
    s = S.log(10) * b * b * S.sqrt(var) / S.sqrt(tot - 1)
    return s if b_parameter == "b_value" else s / S.log(10)


@unit("shi_bolt_confidence", ["C06", "C14"], [FQ + "shi_bolt_confidence"], cases=150)
class ShiBolt(Unit):
    def inputs(self, V):
        n = V.int("n", 1, 30)
        return {"mags": V.arr("mags", n), "b": V.real("b"),
                "weights": V.choice("weighted", [None, 1]) and V.arr("weights", n, lo=0, gen=gen_weights),
                "par": V.choice("par", ["b_value", "beta", "other"])}

    def pre(self, S, a):
        n = S.len(a["mags"])
        tot = wtot(S, n, a["weights"])
        return [n >= 1, tot > 1]

    def raises(self, S, a):
        return [(a["par"] == "other", ValueError, "unknown parameter name")]

    def run(self, a):
        return get(U + ":shi_bolt_confidence")(a["mags"], a["b"], weights=a["weights"], b_parameter=a["par"])

    def post(self, P, S, a, r):
        P.eq("ln(10) b^2 s / sqrt(n-1)", r, shi_bolt(S, a["mags"], a["b"], a["weights"], a["par"]))
