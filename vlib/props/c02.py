"""C02 closed-form Greeks."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import ref
from vlib.core import Sub, close, ensure, fail, num, sut
from vlib.props import c01

RULE = "A case is one contract (S, K, t, r, b, sigma), a class and number types; every Greek is asked for, call and put."
T = 1.2e-7


def call_of(o, name, call):
    return num(sut(name, getattr(o, name), call=call), name)


def greeks(c, rec):
    S, K, t, r, b, s = (c[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    o = c01.build(c)
    d1, d2 = c01.classify(c, rec)
    A, B = S * math.exp((b - r) * t), K * math.exp(-r * t)
    e = A / S
    phi = float(ref.npdf(d1))
    fp = 1e-9 * (1 + d1 * d1)  # rounding of d1 in the exponent
    vals = {}
    for call in (False, True):
        g, p = ref.gbs_greeks(S, K, t, r, b, s, call)
        z = "call" if call else "put"
        got = {n: call_of(o, n, call) for n in ("delta", "theta", "rho", "lamb", "c_of_c")}
        got["vega"], got["gamma"] = num(sut("vega", o.vega), "vega"), num(sut("gamma", o.gamma), "gamma")
        close(got["delta"], g["delta"], T * e, f"{z} delta")
        close(got["gamma"], g["gamma"], fp * g["gamma"] + 1e-300, f"{z} gamma")
        close(got["vega"], g["vega"], fp * g["vega"] + 1e-300, f"{z} vega")
        close(
            got["theta"], g["theta"],
            T * (abs(b - r) * A + abs(r) * B) + fp * A * phi * s / (2 * math.sqrt(t)) + 1e-12 * (A + B),
            f"{z} theta",
        )
        close(got["rho"], g["rho"], T * t * (A + B), f"{z} rho (b {'=' if b == 0 else '!='} 0)")
        close(got["c_of_c"], g["CofC"], T * t * A, f"{z} c_of_c")
        own = num(sut("price", o.call if call else o.put))
        if own > 1e-4 * (A + B):
            close(got["lamb"], got["delta"] * S / own, 1e-9 * abs(got["lamb"]) + 1e-9 * A / own, f"{z} lamb = delta S / price")
            close(got["lamb"], float(g["delta"]) * S / float(p), 4e-7 * (A + B) * A / own**2, f"{z} lamb vs closed form")
            rec.nt(1e-3 < abs(g["delta"]) / e < 0.999)
        d = sut("greeks", o.greeks, call=call)
        if not isinstance(d, dict):
            fail(f"greeks() returned {type(d).__name__}")
        names = {"delta": "delta", "theta": "theta", "vega": "vega", "rho": "rho", "lambda": "lamb", "gamma": "gamma", "CofC": "c_of_c"}
        ensure(set(d) == set(names), f"greeks() keys {sorted(map(str, d))}")
        for k, n in names.items():
            x = num(d[k], f"greeks()[{k}]")
            ensure(x == got[n] or abs(x - got[n]) <= 1e-12 * abs(got[n]) or (math.isnan(x) and math.isnan(got[n])),
                   f"greeks(call={call})[{k!r}] = {x} but {n}() = {got[n]}")
        vals[call] = got
    close(vals[True]["delta"] - vals[False]["delta"], e, 2e-9 * e, "call delta - put delta vs e^((b-r)t)")
    close(vals[True]["c_of_c"] - vals[False]["c_of_c"], t * A, 2e-9 * t * A, "call CofC - put CofC vs t S e^((b-r)t)")
    # defaults: call
    for n in ("delta", "theta", "rho", "lamb", "c_of_c"):
        x = num(sut(n, getattr(o, n)), n)
        ensure(x == vals[True][n] or math.isnan(x), f"{n}() without argument is not the call's")
        x = num(sut(n, getattr(o, n), False), n)
        ensure(x == vals[False][n] or math.isnan(x), f"{n}(False) is not the put's")
    d = sut("greeks", o.greeks)
    for k, n in names.items():
        x = num(d[k], f"greeks()[{k}]")
        ensure(abs(x - vals[True][n]) <= 1e-12 * abs(x) or math.isnan(x), f"greeks() without argument is not the call's: {k}")


SUBS = [Sub("greeks", c01.cases(), greeks, 6000, rule="a delta strictly inside (0.001, 0.999) of e^((b-r)t) with a price above 1e-4 of the notional")]
