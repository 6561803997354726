"""C14 European two-asset lattice options."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut

RULE = (
    "A case is one of the nine payoffs (through the generic class or its named subclass), quantities, "
    "correlation and a number of steps.  The oracle is the discounted expectation over Rubinstein's "
    "terminal law; no backward induction."
)


@st.composite
def cases(draw, american=False):
    name = draw(st.sampled_from(["SALL"] * 6 + ["SMAX", "SMIN", "SSPR"]))
    p = draw(models.spread_params(name, nmax=9, american=american, wide=True))
    return {"cls": name, "p": p, "kw": draw(st.booleans()), "default": draw(st.booleans()), "as": draw(gen.CASTS)}


OPT = {"SMAX": 2, "SMIN": 3, "SSPR": 1}


def obj(c):
    p = dict(c["p"])
    if c["default"]:
        # drop arguments that equal the documented defaults
        for k, v in (("otype", "european"), ("n", 5), ("option", 1), ("Q1", 1), ("Q2", 1)):
            if p.get(k) == v:
                del p[k]
    for k in ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K"):
        if k in p:
            p[k] = gen.cast(c["as"], p[k])
    order = models.CLASSES[c["cls"]][1]
    present = [k in p for k in order]
    contiguous = all(present[: sum(present)])
    return models.build(c["cls"], p, kw=c["kw"] or not contiguous)


def full(c):
    p = {k: v for k, v in c["p"].items() if k not in ("otype",)}
    p["option"] = p.get("option", OPT.get(c["cls"], 1))
    return p


def notional(p, call=True):
    """The largest payoff that matters: expected positive parts are bounded by these."""
    a = p["Q1"] * p["S1"] * math.exp(abs(p["b1"] - p["r"]) * p["t"])
    b = p["Q2"] * p["S2"] * math.exp(abs(p["b2"] - p["r"]) * p["t"])
    K, K2 = abs(p.get("K") or 0), abs(p.get("K2") or 0)
    g = math.exp(abs(p["r"]) * p["t"])
    if p["option"] == 8:
        return a / b * math.exp(2 * p["sigma2"] ** 2 * p["t"] + abs(p["b2"]) * p["t"] * 2) * g + K * g
    if p["option"] == 9:
        return a * b * math.exp((abs(p["r"]) + p["sigma1"] * p["sigma2"]) * p["t"]) + K * g
    return a + b + K * g + K2 * g


def root(o, call, v, tol):
    """The tree starts with the price."""
    w = "call(tree=True)" if call else "put(tree=True)"
    a = np.asarray(sut(w, o.call if call else o.put, tree=True))
    ensure(a.ndim == 2, f"{w} has {a.ndim} dimensions")
    close(float(a[0, 0]), v, tol, f"first node of {w} vs price")


def run(c, rec):
    p = full(c)
    o = obj(c)
    N = notional(p)
    v = {}
    for call in (True, False):
        v[call] = num(sut("price", o.call if call else o.put))
        want = ref.spread_expectation(**p, call=call)
        close(v[call], want, 1e-9 * N, f"{c['cls']} payoff {p['option']} {'call' if call else 'put'}, {p['n']} steps, vs expectation")
        root(o, call, v[call], 1e-9 * N)
    rec.label(c["cls"], f"payoff {p['option']}", "n=1" if p["n"] == 1 else "n>1", *(["Q1 or Q2 != 1"] if (p["Q1"], p["Q2"]) != (1, 1) else []))
    rec.nt(p["n"] > 1 and min(v.values()) > 1e-5 * N)


def expect(c, rec):
    """Relations between contracts on one lattice: parity for each payoff that is a put and a call
    on the same amount, max + min = the two one-asset calls, dual-strike >= either leg."""
    p = full(c)
    base = {k: p[k] for k in ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2", "n")}
    K = p.get("K") or p["Q1"] * p["S1"]
    if K <= 0:
        K = 0.3 * p["Q1"] * p["S1"]
    N = notional(dict(p, option=4, K=K, K2=K)) * 2

    def price(option, call=True, **kw):
        o = models.build("SALL", dict(base, option=option, otype="european", **kw))
        return num(sut("price", o.call if call else o.put))

    df = math.exp(-p["r"] * p["t"])
    one1 = num(sut("JR call", models.build("JR", dict(S=p["Q1"] * p["S1"], K=K, t=p["t"], r=p["r"], b=p["b1"], sigma=p["sigma1"], type="european", n=p["n"])).call))
    mx, mn = price(2, K=K), price(3, K=K)
    # asset 2 sees two independent binomial steps per period: its call comes from a degenerate max
    one2 = price(2, K=K, **{}) + price(3, K=K) - one1
    far = models.build("SALL", dict(base, option=4, otype="european", K=1e9 * K, K2=K))
    leg2 = num(sut("call", far.call))
    close(one2, leg2, 1e-9 * N, "call(max) + call(min) - call(asset 1) vs call(asset 2)")
    dual = price(4, K=K, K2=K)
    close(dual, mx, 1e-9 * N, "dual strike with equal strikes vs option on the maximum")
    ensure(dual >= max(one1, leg2) - 1e-9 * N, "dual strike below one of its legs")
    # exchange: payoff 7 call is the put on the difference with strike zero
    close(price(7), price(1, call=False, K=0.0), 1e-9 * N, "exchange call vs spread put at strike 0")
    close(price(7, call=False), price(1, K=0.0), 1e-9 * N, "exchange put vs spread call at strike 0")
    # parity: call - put does not depend on optionality
    for k in (1, 6):
        par = price(k, K=K) - price(k, call=False, K=K)
        par0 = price(k, K=0.25 * K) - price(k, call=False, K=0.25 * K)
        close(par0 - par, 0.75 * K * df, 1e-8 * N, f"payoff {k}: call - put falls by the discounted strike")
    rec.label(f"n={p['n']}")
    rec.nt(p["n"] > 1 and min(mx, mn) > 1e-4 * N)


SUBS = [
    Sub("european", cases(), run, 4000, rule="two steps or more, call and put above 1e-5 of the notional"),
    Sub("relations", cases(), expect, 700, rule="two steps or more, options on maximum and minimum above 1e-4 of the notional"),
]
