"""C04 implied volatility inverts the price."""
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, arr, close, ensure, fail, num, outcome, sut

models.WHOLE = True
RULE = (
    "A case is a contract, call or put, whose price comes from a drawn volatility; the contract "
    "without its volatility is asked for the volatility of that price."
)


@st.composite
def scalar(draw):
    name = draw(st.sampled_from(["GBS", "GBS", "BS", "B76", "RGW", "RGW"]))
    if name == "RGW":
        p = draw(models.rgw_params())
        s = p["sigma"]
        call = True
    else:
        p = draw(gen.market(rlo=-0.03, rhi=0.2, tmin=0.02, tmax=5.0, smin=0.04, smax=1.5, z=2.5, width=0.4, slo=0.5, shi=5000))
        call = draw(st.booleans())
        if name == "B76":
            p["FT"] = p.pop("S")
            del p["b"]
    return {"cls": name, "p": p, "call": call, "verbose": draw(st.integers(0, 3)) == 0,
            "known": draw(st.integers(0, 4)) == 0, "opts": draw(st.integers(0, 3)) == 0}


def ref_price_vega(name, p, call, s):
    if name == "RGW":
        f = lambda v: ref.rgw(p["S"], p["K"], p["t"], p["td"], p["r"], p["D"], v)[0]
        return f(s), (f(s * 1.001) - f(s * 0.999)) / (0.002 * s)
    S, b = p.get("S", p.get("FT")), p.get("b", 0.0)
    g, v = ref.gbs_greeks(S, p["K"], p["t"], p["r"], b, s, call)
    return float(v), float(g["vega"])


def one(c, rec):
    name, call = c["cls"], c["call"]
    p = dict(c["p"])
    true = p["sigma"]
    S = p.get("S", p.get("FT"))
    N = S * math.exp((p.get("b", 0) - p["r"]) * p["t"]) + p["K"] * math.exp(-p["r"] * p["t"])
    want_price, vega = ref_price_vega(name, p, call, true)
    if vega * true < 2e-4 * N:
        raise Reject()  # the price says nothing about the volatility
    full = models.build(name, p)
    price = models.price(name, full, call)
    bare = dict(p)
    if c["known"]:
        bare["sigma"] = gen.sig(true * 1.7)
    else:
        del bare["sigma"]
    o = models.build(name, bare)
    kw = {} if name == "RGW" or (call and not c["opts"]) else {"call": call}  # call is the default
    if c["opts"]:
        kw.update(tol=1e-12, maxiter=500)
    got, warned = _call(f"volatility({kw})", o.volatility, price, **kw)
    ensure(warned or not c["known"], "volatility() of a contract that has one gave no warning")
    v = num(got, "volatility")
    # prices are accurate to 1.2e-7 of the notional, discontinuities of the polynomial N(x) 2e-9
    tv = 5e-9 * N / vega + 1e-9
    close(v, true, tv + 1e-6 * true, f"{name} volatility of the price at sigma={true}")
    again = models.price(name, models.build(name, dict(p, sigma=v)), call)
    close(again, price, 3e-8 * N, f"{name} price at the implied volatility")
    if c["verbose"]:
        d, _ = _call("volatility(verbose=True)", o.volatility, price, verbose=True, **kw)
        r = getattr(d, "root", None)
        if r is None:
            fail(f"volatility(verbose=True) returned {type(d).__name__} without root")
        ensure(bool(d.converged), "verbose result reports no convergence")
        close(num(r), v, tv + 1e-6 * true, "verbose root vs volatility()")
        rec.label("verbose")
    rec.label(name, "call" if call else "put", *(["sigma given"] if c["known"] else []))
    rec.nt(abs(true - 1) > 1e-3)


def _call(what, fn, *a, **k):
    """As sut, and whether a UserWarning was given."""

    def f():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            r = fn(*a, **k)
        return r, any(issubclass(x.category, UserWarning) for x in w)

    return sut(what, f)


@st.composite
def arrays(draw):
    n = draw(gen.size(2, 5, 25, 8))
    rows = [draw(gen.market(rlo=-0.02, rhi=0.15, tmin=0.06, tmax=4.0, smin=0.06, smax=1.1, z=1.5, width=0.15, slo=1.0, shi=1000)) for _ in range(n)]
    vary = draw(st.lists(st.sampled_from(["K", "S", "t", "r", "b"]), min_size=0, max_size=4, unique=True))
    return {"cls": draw(st.sampled_from(["GBS", "BS", "B76"])), "rows": rows, "vary": sorted(vary),
            "call": draw(st.booleans()), "verbose": draw(st.integers(0, 3)) == 0}


def many(c, rec):
    name, call, rows = c["cls"], c["call"], [dict(r) for r in c["rows"]]
    base = rows[0]
    m = [math.log(r["K"] / r["S"]) - r["b"] * r["t"] for r in rows]
    for r, mm in zip(rows, m):
        for k in ("S", "t", "r", "b"):
            if k not in c["vary"]:
                r[k] = base[k]
        if name == "B76":
            r["b"] = 0.0
        r["K"] = r["S"] * math.exp(max(-1.5, min(1.5, mm / (r["sigma"] * math.sqrt(r["t"])))) * r["sigma"] * math.sqrt(r["t"]) + r["b"] * r["t"])
    p = {k: np.array([r[k] for r in rows]) for k in base}
    true = p["sigma"]
    for k in ("S", "t", "r", "b"):
        if k not in c["vary"]:
            p[k] = base[k]
    price, vega = [], []
    for r in rows:
        g, v = ref.gbs_greeks(r["S"], r["K"], r["t"], r["r"], r["b"], r["sigma"], call)
        vega.append(float(g["vega"]))
    vega = np.array(vega)
    N = np.array([r["S"] * math.exp((r["b"] - r["r"]) * r["t"]) + r["K"] * math.exp(-r["r"] * r["t"]) for r in rows])
    if np.any(vega * true < 2e-3 * N):
        raise Reject()
    if name == "B76":
        p["FT"] = p.pop("S")
        del p["b"]
    o = models.build(name, p)
    price = arr(sut("price", o.call if call else o.put), (len(rows),), "price")
    bare = dict(p)
    del bare["sigma"]
    b = models.build(name, bare)
    kw = {} if call and not c["verbose"] else {"call": call}
    v = arr(sut("volatility(array)", b.volatility, price, **kw), (len(rows),), "volatility")
    tol = 1e-5 * true + 1e-7 * N / vega
    close(v, true, tol, f"{name} volatility of an array of prices")
    if c["verbose"]:
        d = sut("volatility(array, verbose)", b.volatility, price, call=call, verbose=True)
        ensure(hasattr(d, "x"), f"volatility(verbose=True) of arrays returned {type(d).__name__} without x")
        close(arr(d.x, (len(rows),)), true, tol, "verbose x")
        rec.label("verbose")
    rec.label(name, f"{len(rows)} prices", *("vary " + k for k in c["vary"]))
    rec.nt()


SUBS = [
    Sub("scalar", scalar(), one, 3000, rule="the volatility is not 1, the price depends on it (vega*sigma >= 2e-4 of the notional) and is recovered"),
    Sub("array", arrays(), many, 700, rule="every element's vega*sigma is at least 2e-3 of its notional"),
]
