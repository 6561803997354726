"""C03 finite-difference Greeks of every option class are derivatives of that class's own price."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Reject, Sub, Violation, close, ensure, fail, getkey, num, sut

models.WHOLE = True
RULE = (
    "A case is an option class, valid parameters, call or put, and one Greek.  The oracle is a "
    "fourth-order difference quotient of the same class's price at freshly built objects, used only "
    "where three step sizes agree (the price is smooth there)."
)

NAMES = ["GBS", "BS", "B76", "MS", "RGW", "BAW", "BS93", "CRR", "JR", "TIAN", "TRI", "SALL", "SMAX", "SMIN", "SSPR", "SAPX"]
GREEKS = ["delta", "theta", "vega", "rho", "gamma", "lamb"]
VOLS = ("sigma", "sigmaS", "sigmaE", "sigmaF", "sigma1", "sigma2")
PRICES = {"B76": ["FT"], "MS": ["FT"], **{n: ["S1", "S2"] for n in models.TWO_ASSET}}


@st.composite
def cases(draw, names):
    name = draw(st.sampled_from(names))
    p = draw(models.params(name, nmax=8 if name in models.TREES else 4))
    # room for the fixed one-business-day step of theta
    if p["t"] < 0.1:
        f = 0.1 / p["t"]
        for k in ("t", "td", "T"):
            if k in p:
                p[k] = gen.sig(p[k] * f * 1.01)
    if draw(st.integers(0, 2)) == 0:
        # pennies and fortunes
        f = math.exp(draw(gen.real(-9.0, 7.0)))
        ratio = p.get("option") in (8, 9)
        for k in ("S", "FT", "S1", "S2", "D") + (() if ratio else ("K", "K2")):
            if k in p:
                p[k] = gen.sig(p[k] * f)
        if p.get("option") == 9 and "K" in p:
            p["K"] = gen.sig(p["K"] * f * f)
    greek = draw(st.sampled_from(GREEKS))
    if name == "MS" and greek == "rho":
        greek = "delta"
    if name in ("GBS", "BS") and greek == "rho":
        p["b"] = 0.0
    return {"cls": name, "p": p, "greek": greek, "call": draw(st.booleans()), "dict": draw(st.integers(0, 4)) == 0, "bare": draw(st.booleans())}


def D1(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def D2(f, x, h):
    return (-f(x + 2 * h) + 16 * f(x + h) - 30 * f(x) + 16 * f(x - h) - f(x - 2 * h)) / (12 * h * h)


def kinked(f, x, nat, tol):
    """A kink so close that central differences of every step size average over it."""
    f0 = f(x)
    return any(abs((f(x + h) - f0) / h - (f0 - f(x - h)) / h) > tol for h in (3e-4 * nat, 3e-5 * nat))


def notional(name, p):
    q1, q2 = p.get("Q1", 1), p.get("Q2", 1)
    if p.get("option") == 9:
        return q1 * p["S1"] * q2 * p["S2"] + p["K"]
    if p.get("option") == 8:
        return q1 * p["S1"] / (q2 * p["S2"]) + p["K"]
    return sum(abs(p.get(k) or 0) * q for k, q in (("S", 1), ("FT", 1), ("K", 1), ("K2", 1), ("S1", q1), ("S2", q2)))


def run(c, rec):
    name, p, greek, call = c["cls"], c["p"], c["greek"], c["call"]
    if name == "RGW":
        call = True
    if greek in ("vega", "gamma"):
        call = True  # one value for calls and puts: the call's
    o = models.build(name, p)
    kw = {} if name == "RGW" or greek in ("vega", "gamma") else {"call": call}
    if c["bare"] and call:
        kw = {}  # a call is the default
    if name in models.VANILLA:
        kw["method"] = "fdm"
    got = sut(f"{greek}({kw})", getattr(o, greek), **kw)
    rec.label(name, greek, "call" if call else "put")
    if name in models.TREES:
        rec.label(f"{name} {p['type']}")
    if "otype" in p:
        rec.label(f"{name} {p['otype']}")

    if c["dict"] and name not in models.VANILLA:
        rec.label("greeks()")
        d = sut("greeks()", o.greeks, **({} if name == "RGW" or c["call"] and c["bare"] else {"call": c["call"]}))
        if not isinstance(d, dict):
            fail(f"greeks() returned {type(d).__name__}")
        want = {"delta", "theta", "vega", "lambda", "gamma"} | (set() if name == "MS" else {"rho"})
        ensure(set(d) == want, f"greeks() has entries {sorted(map(str, d))}")
        if call == c["call"] or greek in ("vega", "gamma"):
            same(d["lambda" if greek == "lamb" else greek], got, f"greeks()[{greek}] vs {greek}()")

    ups = PRICES.get(name, ["S"])
    keys = {
        "delta": ups, "gamma": ups, "lamb": ups, "theta": ["t"], "rho": ["r"],
        "vega": [k for k in VOLS if k in p],
    }[greek]
    if name in models.TWO_ASSET and greek in ("delta", "gamma", "lamb", "vega"):
        if not isinstance(got, dict):
            fail(f"{greek}() returned {type(got).__name__}, not a value per asset")
        ensure(set(got) == set(keys), f"{greek}() has entries {sorted(map(str, got))}, expected {keys}")
        vals = [num(got[k], greek) for k in keys]
    elif len(keys) > 1:
        a = np.asarray(got, dtype=float)
        ensure(a.shape == (len(keys),), f"{greek}() has shape {a.shape}, expected ({len(keys)},)")
        vals = list(map(float, a))
    else:
        vals = [num(got, greek)]

    base = models.price(name, o, call)
    if greek == "lamb":
        d = sut("delta", o.delta, **kw)
        if base < 1e-9 * notional(name, p):
            raise Reject()
        for k, v in zip(keys, vals):
            dk = num(getkey(d, k, "delta()") if isinstance(d, dict) else d, "delta")
            close(v, dk * p[k] / base, 1e-9 * abs(v) + 1e-12, f"{name} lamb = delta {k} / price")
            rec.nt(abs(v) > 1e-3)
        return

    vol = max(p[k] for k in VOLS if k in p) * math.sqrt(p["t"])
    N = notional(name, p)
    checked = 0
    for k, v in zip(keys, vals):
        def f(x):
            return models.price(name, models.build(name, dict(p, **{k: x})), call)

        x0 = p[k]
        nat = {"theta": p["t"], "vega": x0, "rho": 0.05}.get(greek, x0 * min(vol, 0.3))
        hs = (0.1, 0.05, 0.02) if greek in ("delta", "gamma") else (0.05, 0.02, 0.01)
        lattice = name in models.TREES or name in models.SPREADS
        if lattice:
            hs = (0.5, 0.2, 0.1, 0.02) if greek in ("delta", "gamma") else (0.1, 0.05, 0.02, 0.005)
        if name == "RGW" and greek == "theta":
            # the ex-dividend date stays where it is
            nat = min(p["t"] - p["td"], p["td"], p["t"])
        D = D2 if greek == "gamma" else D1
        if greek == "delta":
            scale = N / x0
        elif greek == "gamma":
            scale = N / x0**2 / (1 if lattice else min(vol, 1.0))
        elif greek == "theta":
            scale = N * vol / p["t"] + N * 0.05
        else:
            scale = N * (math.sqrt(p["t"]) if greek == "vega" else p["t"])
        ds = [D(f, x0, h * nat) for h in hs]
        if not all(map(math.isfinite, ds)):
            continue
        spread = (max(ds) - min(ds)) / scale
        if spread > (2e-3 if greek == "gamma" else 2e-4):
            continue
        if lattice and kinked(f, x0, nat, 0.4 * TOL[greek] * scale * (x0 if greek == "gamma" else 1.0)):
            continue
        want = ds[1] if greek != "theta" else -ds[1]
        slack = 3 * spread * scale
        if name in ("BAW", "BS93") and greek == "vega":
            # one difference over a tenth of the volatility either way: its error near the exercise boundary
            slack += 1.2 * abs((f(1.1 * x0) - f(0.9 * x0)) / (0.2 * x0) - want)
        close(v, want, TOL[greek] * scale + slack, f"{name} {'call' if call else 'put'} {greek} ({k}) vs difference quotient of the price")
        checked += 1
        rec.nt(abs(want) > 5 * TOL[greek] * scale)
    if not checked:
        rec.label("not smooth here")


TOL = {"delta": 1e-3, "theta": 3e-3, "vega": 1.5e-3, "rho": 1e-3, "gamma": 2e-2}


def same(a, b, what):
    if isinstance(a, dict) or isinstance(b, dict):
        ensure(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), f"{what}: {a!r} vs {b!r}")
        for k in a:
            same(a[k], b[k], f"{what}[{k}]")
        return
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    ensure(x.shape == y.shape and np.all((np.abs(x - y) <= 1e-9 * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))), f"{what}: {a!r} vs {b!r}")


SMOOTH = ["GBS", "BS", "B76", "MS", "RGW", "BAW", "BS93", "SAPX"]
LATT = ["CRR", "JR", "TIAN", "TRI", "SALL", "SMAX", "SMIN", "SSPR"]
SUBS = [
    Sub("formulas", cases(SMOOTH), run, 4000, rule="the derivative exceeds five tolerances (lambda: 1e-3)"),
    Sub("lattices", cases(LATT), run, 3200, rule="the derivative exceeds five tolerances (lambda: 1e-3)"),
]
