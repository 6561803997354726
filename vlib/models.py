"""The public option classes: how to build each from named parameters, and valid parameters."""
import importlib
import math
import sys
import zlib

import numpy as np
from hypothesis import strategies as st

import finoptions as fo
from finoptions import (
    basic_american_options as ba,
    binomial_tree_options as bt,
    heston_nandi_options as hn,
    spread_options as sp,
)
from vlib import gen
from vlib.core import getkey, num, sut

VAN = ("S", "K", "t", "r", "b", "sigma")
TREE = VAN + ("type", "n")
SPR = ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "K2", "Q1", "Q2", "option", "otype", "n")
SPN = ("S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2", "otype", "n")
MS = ("Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")

# name -> (class, constructor order)
CLASSES = {
    "GBS": (fo.GBSOption, VAN),
    "BS": (fo.BlackScholesOption, VAN),
    "B76": (fo.Black76Option, ("FT", "K", "t", "r", "sigma")),
    "MS": (fo.MiltersenSchwartzOption, MS),
    "RGW": (ba.RollGeskeWhaleyOption, ("S", "K", "t", "td", "r", "D", "sigma")),
    "BAW": (ba.BAWAmericanApproxOption, VAN),
    "BS93": (ba.BSAmericanApproxOption, VAN),
    "CRR": (bt.CRRBinomialTreeOption, TREE),
    "JR": (bt.JRBinomialTreeOption, TREE),
    "TIAN": (bt.TIANBinomialTreeOption, TREE),
    "TRI": (bt.TrinomialTreeOption, TREE),
    "HN": (hn.HestonNandiOption, ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma")),
    "SALL": (sp.BionomialSpreadAllTypes, SPR),
    "SMAX": (sp.BionomialMaxOption, SPN),
    "SMIN": (sp.BionomialMinOption, SPN),
    "SSPR": (sp.BionomialSpreadOption, SPN),
    "SAPX": (sp.SpreadApproxOption, SPN[:12]),
}
VANILLA = ("GBS", "BS", "B76")
AMERICAN = ("RGW", "BAW", "BS93")
TREES = ("CRR", "JR", "TIAN", "TRI")
SPREADS = ("SALL", "SMAX", "SMIN", "SSPR")
TWO_ASSET = SPREADS + ("SAPX",)


# set by checks whose contracts may as well be given in whole numbers
WHOLE = False


def whole(p):
    """Whole numbers as ints, for a third of all contracts (a function of the contract)."""
    if zlib.crc32(repr(sorted(p.items(), key=str)).encode()) % 3:
        return p
    return {k: int(v) if type(v) is float and v.is_integer() else v for k, v in p.items()}


def build(name, p, kw=True, what=None):
    cls, order = CLASSES[name]
    if WHOLE:
        p = whole(p)
    if kw:
        return sut(f"{cls.__name__}(...)", cls, **{k: p[k] for k in order if k in p})
    args = []
    for k in order:
        if k not in p:
            break
        args.append(p[k])
    return sut(f"{cls.__name__}(...)", cls, *args)


def pristine(name, p):
    """An option of a newly imported copy of the package: nothing was ever priced there."""
    cls, order = CLASSES[name]
    mine = lambda: [k for k in sys.modules if k == "finoptions" or k.startswith("finoptions.")]
    old = {k: sys.modules.pop(k) for k in mine()}
    try:
        importlib.import_module(cls.__module__)
        new = getattr(sys.modules[cls.__module__], cls.__name__)
    finally:
        for k in mine():
            del sys.modules[k]
        sys.modules.update(old)
    return sut(f"{cls.__name__}(...)", new, **{k: p[k] for k in order if k in p})


def price(name, o, call=True):
    v = sut("call()" if call else "put()", o.call if call else o.put)
    if name == "BS93":
        v = getkey(v, "OptionPrice", "price")
    return num(v, "call()" if call else "put()")


def has_put(name):
    return name != "RGW"


@st.composite
def ms_params(draw, wide=False):
    FT = draw(gen.mostly(gen.pos(1.0, 1000.0, gen.PRICES), gen.pos(1e-4, 1e6)))
    t = draw(gen.pos(0.02, 3.0, (0.25, 0.5, 1.0)))
    T = t if draw(st.integers(0, 5)) == 3 else gen.sig(t + draw(gen.pos(0.01, 3.0, (0.25, 0.5, 1.0))))
    # far from quoted markets: tiny and huge volatilities, days and decades
    wide = wide and draw(st.integers(0, 4)) == 0
    if wide:
        t = draw(gen.pos(1e-3, 20.0))
        T = gen.sig(t + draw(gen.pos(1e-3, 20.0))) if draw(st.integers(0, 5)) else t
    corr = gen.real(-0.9, 0.9, (0.0, 0.805, 0.5))
    p = {
        "Pt": gen.sig(math.exp(-draw(gen.real(0.0, 0.15, (0.05,))) * t)),
        "FT": FT,
        "K": 0.0,
        "t": t,
        "T": T,
        "sigmaS": draw(gen.pos(0.003, 2.0) if wide else gen.pos(0.1, 0.8, (0.266, 0.3))),
        "sigmaE": draw(gen.pos(0.001, 1.0) if wide else gen.pos(0.01, 0.5, (0.249,))),
        "sigmaF": draw(gen.pos(0.0005, 0.2) if wide else gen.pos(0.002, 0.1, (0.0096,))),
        "rhoSE": draw(corr),
        "rhoSF": draw(corr),
        "rhoEF": draw(corr),
        "KappaE": draw(gen.pos(0.05, 8.0) if wide else gen.pos(0.1, 4.0, (1.045, 1.0))),
        "KappaF": draw(gen.pos(0.05, 6.0) if wide else gen.pos(0.1, 2.0, (0.2, 1.0))),
    }
    # a consistent correlation matrix, away from singular
    a, b, c = p["rhoSE"], p["rhoSF"], p["rhoEF"]
    det = 1 + 2 * a * b * c - a * a - b * b - c * c
    if det < 0.05:
        f = 0.6
        for k in ("rhoSE", "rhoSF", "rhoEF"):
            p[k] = gen.sig(p[k] * f)
        a, b, c = p["rhoSE"], p["rhoSF"], p["rhoEF"]
        if 1 + 2 * a * b * c - a * a - b * b - c * c < 0.05:
            p["rhoEF"] = gen.sig(a * b)
    m = draw(gen.real(-2.0, 2.0, (0.0,)))
    p["K"] = gen.sig(FT * math.exp(m * p["sigmaS"] * math.sqrt(t)))
    return p


@st.composite
def spread_params(draw, name="SALL", nmax=8, american=None, options=tuple(range(1, 10)), wide=False):
    opt = {"SALL": None, "SMAX": 2, "SMIN": 3, "SSPR": 1, "SAPX": 1}[name]
    if opt is None:
        opt = draw(st.sampled_from(options))
    S1 = draw(gen.pos(1.0, 300.0, (100.0, 122.0, 28.0)))
    S2 = gen.sig(S1 * math.exp(draw(gen.real(-0.7, 0.7, (0.0,)))))
    t = draw(gen.pos(0.05, 3.0, (0.1, 0.25, 0.5, 1.0)))
    r = draw(gen.real(-0.02, 0.2, (0.1, 0.05, 0.0)))
    Q1 = draw(st.sampled_from([1, 1, 1, 2, 0.5, 3, 1.25]))
    Q2 = draw(st.sampled_from([1, 1, 1, 2, 0.5, 3, 0.75]))
    p = {
        "S1": S1, "S2": S2, "t": t, "r": r,
        "b1": draw(gen.carry(r, -0.1, 0.2)), "b2": draw(gen.carry(r, -0.1, 0.2)),
        "sigma1": draw(gen.pos(0.05, 0.8, (0.2, 0.25, 0.3))), "sigma2": draw(gen.pos(0.05, 0.8, (0.2, 0.25, 0.3))),
        "rho": draw(gen.real(-0.95, 0.95, (0.0, 0.5, -0.5))),
        "Q1": Q1, "Q2": Q2,
    }
    if wide and draw(st.integers(0, 5)) == 0:
        p["S1"] = S1 = draw(gen.pos(1e-4, 1e6))
        p["S2"] = S2 = gen.sig(S1 * math.exp(draw(gen.real(-3.0, 3.0))))
        p["t"], p["r"] = draw(gen.pos(0.002, 15.0)), draw(gen.real(-0.1, 0.4))
        p["b1"], p["b2"] = draw(gen.real(-0.3, 0.4)), draw(gen.real(-0.3, 0.4))
        p["sigma1"], p["sigma2"] = draw(gen.pos(0.02, 1.5)), draw(gen.pos(0.02, 1.5))
        p["rho"] = draw(gen.real(-1.0, 1.0, (1.0, -1.0)))
        p["Q1"], p["Q2"] = Q1, Q2 = draw(gen.pos(0.01, 100.0)), draw(gen.pos(0.01, 100.0))
    k = math.exp(draw(gen.real(-0.5, 0.5, (0.0,))))
    a, b = Q1 * S1, Q2 * S2
    base = {1: abs(a - b) + 0.05 * a, 2: max(a, b), 3: min(a, b), 4: a, 5: a, 6: a + b, 7: None, 8: a / b, 9: a * b}[opt]
    if base is not None:
        p["K"] = gen.sig(base * k)
        if opt == 1 and name != "SAPX" and draw(st.integers(0, 4)) == 2:
            p["K"] = draw(st.sampled_from([0.0, -gen.sig(0.1 * a)]))
    if base is not None and opt != 8 and min(S1, S2, p["K"]) >= 20 and draw(st.integers(0, 4)) == 0:
        for k in ("S1", "S2", "K"):
            p[k] = float(round(p[k]))
    if opt in (4, 5):
        p["K2"] = gen.sig(b * math.exp(draw(gen.real(-0.5, 0.5, (0.0,)))))
    if name != "SAPX":
        p["otype"] = ("american" if american else "european") if american is not None else draw(st.sampled_from(["european", "american"]))
        p["n"] = draw(st.integers(1, nmax))
        if wide and draw(st.integers(0, 39)) == 0:
            p["n"] = draw(st.integers(nmax, 28))
    if name == "SALL":
        p["option"] = opt
        # unused strikes may be given too
        if opt not in (4, 5) and draw(st.integers(0, 6)) == 3:
            p["K2"] = gen.sig(b)
        if opt == 7 and draw(st.booleans()):
            p["K"] = gen.sig(a)
    return p


def lattice_ok(kind, p):
    """The lattice of this contract has probabilities inside (0, 1)."""
    from vlib import ref

    try:
        u, d, pr, df = ref.lattice(kind, p["t"], p["r"], p["b"], p["sigma"], p["n"])
    except (ValueError, ZeroDivisionError, OverflowError):
        return False
    return d > 0 and all(1e-9 < x < 1 for x in pr)


@st.composite
def tree_params(draw, name="CRR", nmax=30, american=None, z=3.0, sigma_lo=0.05, tmax=5.0, wide=False):
    p = gen.market(rlo=-0.03, rhi=0.2, tmin=0.01, tmax=tmax, smin=sigma_lo, smax=1.2, z=z, width=1.5, slo=0.1, shi=5000)
    p = draw(gen.mostly(p, gen.wide_market(vlo=0.02, vhi=2.0, thi=20.0)) if wide else p)
    p["n"] = draw(gen.ints(1, nmax, (1, 2, 3, 5)))
    if wide and draw(st.integers(0, 15)) == 0:
        p["n"] = draw(st.integers(nmax, 6 * nmax))
    p["type"] = ("american" if american else "european") if american is not None else draw(st.sampled_from(["european", "american"]))
    # probabilities must lie in (0, 1): |b| sqrt(dt) < sigma (with room)
    dt = p["t"] / p["n"]
    lim = 0.6 * p["sigma"] / math.sqrt(dt)
    if abs(p["b"]) > lim:
        p["b"] = gen.sig(math.copysign(lim * 0.9, p["b"]))
    return p


@st.composite
def rgw_params(draw):
    S = draw(gen.mostly(gen.pos(1.0, 1000.0, gen.PRICES), gen.pos(1e-5, 1e7)))
    t = draw(gen.pos(0.05, 3.0, (1 / 3, 0.5, 1.0)))
    td = gen.sig(t * draw(gen.real(0.05, 0.95, (0.75, 0.5))))
    s = draw(gen.pos(0.08, 0.9, (0.2, 0.3)))
    r = draw(gen.pos(0.002, 0.2, (0.06, 0.05, 0.02)))
    K = gen.sig(S * math.exp(draw(gen.real(-2.0, 2.0, (0.0,))) * s * math.sqrt(t)))
    never = K * -math.expm1(-r * (t - td))  # at or below: early exercise never optimal
    if draw(st.integers(0, 3)) == 0:
        D = gen.sig(never * draw(gen.real(0.05, 0.999)))
    else:
        D = gen.sig(never + draw(gen.pos(0.002, 0.2, (0.04, 0.05))) * min(S, K))
    D = min(D, gen.sig(0.6 * min(S, K)))
    return {"S": S, "K": K, "t": t, "td": td, "r": r, "D": D, "sigma": s}


@st.composite
def hn_params(draw, tmax=60):
    S = draw(gen.pos(1.0, 500.0, (100.0, 80.0)))
    r = draw(st.sampled_from([0.0, 0.05 / 252, 0.1 / 365, 0.0005, 0.001]))
    # persistence and stationary variance first, then the coefficients that give them
    beta = draw(gen.real(0.0, 0.95, (0.589, 0.1, 0.8)))
    lam = draw(gen.real(-0.5, 4.0, (-0.5, 0.205, 0.0)))
    h = (draw(gen.pos(0.08, 0.8, (0.2,))) ** 2) / 252
    g = draw(gen.real(-50.0, 450.0, (0.0, 421.39, 150.0)))
    gs = g + lam + 0.5
    share = draw(gen.real(0.03, 0.9, (0.1, 0.5)))
    omega = (1 - share) * h * (1 - beta)
    alpha = share * h * (1 - beta) / (1 + h * gs * gs)
    t = draw(gen.ints(1, tmax, (1, 2, 5, 21)))
    K = gen.sig(S * math.exp(draw(gen.real(-2.0, 2.0, (0.0,))) * math.sqrt(h * t)))
    return {"S": S, "K": K, "t": t, "r": r, "lamb": lam, "omega": gen.sig(omega), "alpha": gen.sig(alpha), "beta": beta, "gamma": g}


@st.composite
def american_params(draw):
    """r > 0 and -r <= b: the domain in which both quadratic/flat-boundary approximations are defined
    and used."""
    m = draw(gen.market(rlo=0.005, rhi=0.2, tmin=0.02, tmax=4.0, smin=0.1, smax=0.9, z=3.0, width=1.0, slo=1.0, shi=5000))
    m["b"] = max(m["b"], -m["r"])
    return m


def params(name, nmax=8):
    if name in VANILLA:
        base = gen.market(rlo=-0.03, rhi=0.2, tmin=0.01, tmax=5.0, smin=0.05, smax=1.2, z=3.0, width=1.5, slo=0.5, shi=5000)
        if name == "B76":
            def to76(m):
                m = dict(m)
                m["FT"] = m.pop("S")
                del m["b"]
                return m
            return base.map(to76)
        return base
    if name == "MS":
        return ms_params()
    if name == "RGW":
        return rgw_params()
    if name in ("BAW", "BS93"):
        return american_params()
    if name in TREES:
        return tree_params(name, nmax=nmax)
    if name == "HN":
        return hn_params()
    return spread_params(name, nmax=min(nmax, 5))
