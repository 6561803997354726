"""C08 Bjerksund and Stensland (1993)."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, fail, getkey, num, sut

models.WHOLE = True
RULE = "A case is one American contract (S, K, t, r > 0, b, sigma)."


@st.composite
def cases(draw):
    m = draw(gen.mostly(gen.market(rlo=0.004, rhi=0.25, tmin=0.01, tmax=5.0, smin=0.1, smax=1.2, z=3.0, width=1.2, slo=0.5, shi=1e4), gen.wide_market(rlo=0.004, tlo=0.002, thi=15.0, vlo=0.015, vhi=2.5)))
    m["r"] = max(abs(m["r"]), 0.004)
    # carry above -r: the put's transformed problem has rate r - b and carry -b
    m["b"] = max(m["b"], -0.2)
    return m


def run(p, rec):
    S, K, t, r, b, s = (p[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    o = models.build("BS93", p)
    N = S + K
    vals = {}
    for call in (True, False):
        name = "call" if call else "put"
        d = sut(name + "()", o.call if call else o.put)
        v = num(getkey(d, "OptionPrice", name), name + " price")
        trig = num(getkey(d, "TriggerPrice", name), name + " trigger")
        vals[call] = v
        if not call and r - b <= 0 and -b < r - b:
            # transformed rate <= 0: outside the approximation
            rec.label("put transformed rate <= 0")
            continue
        bb = b if call else -b
        if bb * t + 2 * s * math.sqrt(t) <= 1e-6:
            # the published trigger formula runs away from its asymptote
            rec.label(f"{name} carry below -2 sigma / sqrt(t)")
            continue
        want, wtrig = ref.bs93(S, K, t, r, b, s, call)
        if not math.isfinite(want):
            rec.label("reference overflow")
            continue
        # powers of S with exponent beta amplify the polynomial's 7.5e-8
        tol = 3e-7 * N + 2e-7 * ref.bs93_call.magnitude + 1e-12
        if tol > 0.01 * N:
            # a thousand moves out of the money: the published normal approximation has no digits there
            rec.label("beyond the normal approximation")
            continue
        close(v, want, tol, f"{name} vs flat-boundary formula")
        if wtrig is None:
            ensure(math.isnan(trig), f"{name} is never exercised early but the trigger is {trig}")
            rec.label(f"{name} never exercised")
        else:
            close(trig, wtrig, 1e-9 * wtrig, f"{name} trigger price")
            rec.label(f"{name} exercised" if (S >= wtrig if call else K >= wtrig) else f"{name} held")
        euro = float(ref.gbs(S, K, t, r, b, s, call))
        intr = max(0.0, (S - K) if call else (K - S))
        rec.nt(v > max(euro, intr) + 20 * tol)


def transform(p, rec):
    """put(S, K, t, r, b) = call(K, S, t, r - b, -b)."""
    S, K, t, r, b, s = (p[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    if r - b <= 0:
        rec.label("transformed rate <= 0")
    a = sut("put()", models.build("BS93", p).put)
    c = sut("call()", models.build("BS93", dict(S=K, K=S, t=t, r=r - b, b=-b, sigma=s)).call)
    for k in ("OptionPrice", "TriggerPrice"):
        x, y = num(getkey(a, k, "put()")), num(getkey(c, k, "call()"))
        ensure((math.isnan(x) and math.isnan(y)) or x == y or abs(x - y) <= 1e-9 * (S + K + abs(y)), f"put {k} {x} vs transformed call {y}")
    rec.nt(r - b > 0 and num(a["OptionPrice"]) > 1e-4 * (S + K))


SUBS = [
    Sub("price", cases(), run, 5000, rule="an early-exercise premium above twenty tolerances, short of exercise"),
    Sub("transformation", cases(), transform, 1500, rule="a put worth more than 1e-4 of the notional"),
]
