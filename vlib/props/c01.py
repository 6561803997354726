"""C01 closed-form European prices."""
import math

import numpy as np
from hypothesis import strategies as st

import finoptions as fo
from vlib import gen, ref
from vlib.core import Sub, close, ensure, num, sut

RULE = "A case is one contract (S, K, t, r, b, sigma), a class and number types."


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(["GBS", "GBS", "BS", "B76"]))
    m = draw(gen.mostly(gen.market(z=5.0), gen.wide_market()))
    if cls == "B76":
        m["b"] = 0.0
    if draw(st.integers(0, 5)) == 0:
        for k in ("S", "K"):
            m[k] = float(max(1, round(m[k])))
    return {"cls": cls, "as": draw(gen.CASTS), "kw": draw(st.booleans()), **m}


def build(c):
    v = {k: gen.cast(c["as"], c[k]) for k in ("S", "K", "t", "r", "b", "sigma")}
    if c["cls"] == "B76":
        v["FT"] = v.pop("S")
        del v["b"]
        order = ("FT", "K", "t", "r", "sigma")
        cls = fo.Black76Option
    else:
        order = ("S", "K", "t", "r", "b", "sigma")
        cls = fo.GBSOption if c["cls"] == "GBS" else fo.BlackScholesOption
    if c.get("kw"):
        return sut(cls.__name__, cls, **v)
    return sut(cls.__name__, cls, *[v[k] for k in order])


def classify(c, rec):
    S, K, t, r, b, s = (c[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    d1, d2 = ref.gbs_d(S, K, t, r, b, s)
    rec.label(c["cls"], "b=0" if b == 0 else "b=r" if b == r else "b<r" if b < r else "b>r")
    rec.label("|d|<3" if abs(d1) < 3 and abs(d2) < 3 else "tail")
    if r <= 0:
        rec.label("r<=0")
    if S == K:
        rec.label("at the money")
    return d1, d2


TOL = 1.2e-7  # the documented polynomial N(x) is accurate to 7.5e-8 per unit of notional


def price(c, rec):
    S, K, t, r, b, s = (c[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    o = build(c)
    d1, d2 = classify(c, rec)
    A, B = S * math.exp((b - r) * t), K * math.exp(-r * t)
    tol = TOL * (A + B) + 1e-12
    want_c, want_p = float(ref.gbs(S, K, t, r, b, s, True)), float(ref.gbs(S, K, t, r, b, s, False))
    p = num(sut("put()", o.put), "put")
    call = num(sut("call()", o.call), "call")
    close(call, want_c, tol, "call price vs closed form")
    close(p, want_p, tol, "put price vs closed form")
    close(call - p, A - B, 3e-9 * (A + B), "call - put vs S e^((b-r)t) - K e^(-rt)")
    ensure(max(0.0, A - B) - tol <= call <= A + tol, f"call {call} outside [{max(0, A - B)}, {A}]")
    ensure(max(0.0, B - A) - tol <= p <= B + tol, f"put {p} outside [{max(0, B - A)}, {B}]")
    rec.nt(min(want_c, want_p) > 1e-4 * (A + B))


@st.composite
def slope(draw):
    c = draw(cases())
    c["what"] = draw(st.sampled_from(["K", "S", "sigma"]))
    c["f"] = draw(gen.pos(1.01, 3.0))
    return c


def monotone(c, rec):
    """Relations that need no model: call falls and put rises in K, the other way in S, both
    rise in sigma; each is homogeneous of degree one in (S, K)."""
    o = build(c)
    d = dict(c)
    d[c["what"]] = c[c["what"]] * c["f"]
    o2 = build(d)
    e = dict(c, S=c["S"] * c["f"], K=c["K"] * c["f"])
    o3 = build(e)
    A = c["S"] * math.exp((c["b"] - c["r"]) * c["t"]) + c["K"] * math.exp(-c["r"] * c["t"])
    tol = 2.5e-7 * A * c["f"]
    c1, p1, c2, p2 = (num(sut("price", f)) for f in (o.call, o.put, o2.call, o2.put))
    sc, sp = {"K": (-1, 1), "S": (1, -1), "sigma": (1, 1)}[c["what"]]
    ensure(sc * (c2 - c1) >= -tol, f"call not monotone in {c['what']}: {c1} -> {c2}")
    ensure(sp * (p2 - p1) >= -tol, f"put not monotone in {c['what']}: {p1} -> {p2}")
    close(num(sut("call", o3.call)), c1 * c["f"], 1e-9 * A * c["f"], "call homogeneous in (S, K)")
    close(num(sut("put", o3.put)), p1 * c["f"], 1e-9 * A * c["f"], "put homogeneous in (S, K)")
    rec.label(c["cls"], "in " + c["what"])
    rec.nt(abs(c2 - c1) > 10 * tol or abs(p2 - p1) > 10 * tol)


SUBS = [
    Sub("price", cases(), price, 6000, rule="call and put both worth more than 1e-4 of the notional"),
    Sub("relations", slope(), monotone, 2500, rule="the price moves by more than ten tolerances"),
]
