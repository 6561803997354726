"""Strategies shared by the checks.  Everything drawn is JSON-serialisable."""
import math

from hypothesis import strategies as st


def sig(x, digits=6):
    """Round to significant digits: shorter reproductions, same coverage."""
    if x == 0 or not math.isfinite(x):
        return x
    return float(f"%.{digits}g" % x)


def pos(lo, hi, nice=()):
    """Positive reals, uniform in the logarithm, mixed with plain floats (which reach special
    bit patterns and constants found in the code) and nice values."""
    nice = [v for v in nice if lo <= v <= hi]
    parts = [
        st.floats(math.log(lo), math.log(hi)).map(lambda y: min(max(sig(math.exp(y)), lo), hi)),
        st.floats(lo, hi, allow_subnormal=False),
    ]
    if nice:
        parts.append(st.sampled_from(nice))
    return weighted(parts, [8, 1, 2][: len(parts)])


def real(lo, hi, nice=()):
    nice = [v for v in nice if lo <= v <= hi]
    parts = [
        st.integers(-10**6, 10**6).map(lambda i: sig(lo + (hi - lo) * (i + 10**6) / 2e6)),
        st.floats(lo, hi, allow_subnormal=False).map(lambda v: 0.0 if abs(v) < 1e-9 else v),
    ]
    if nice:
        parts.append(st.sampled_from(nice))
    return weighted(parts, [8, 1, 2][: len(parts)])


def weighted(parts, weights):
    """one_of with weights; shrinks towards the first part."""
    table = [i for i, w in enumerate(weights) for _ in range(w)]
    return st.sampled_from(table).flatmap(lambda i: parts[i])


def ints(lo, hi, nice=()):
    nice = [v for v in nice if lo <= v <= hi]
    if not nice:
        return st.integers(lo, hi)
    return weighted([st.integers(lo, hi), st.sampled_from(nice)], [3, 1])


def size(lo, usual, big, often=8):
    """Mostly lo..usual, one time in `often` anything up to big (spread evenly in the logarithm)."""
    large = st.integers(0, 1000).map(lambda i: int(round(usual * (big / usual) ** (i / 1000))))
    return weighted([st.integers(lo, usual), large], [often - 1, 1])


PRICES = (1.0, 10.0, 40.0, 80.0, 100.0, 120.0, 1000.0)
TIMES = (1 / 252, 1 / 12, 0.25, 0.5, 1.0, 2.0, 5.0)
RATES = (0.01, 0.02, 0.05, 0.1)
VOLS = (0.05, 0.1, 0.2, 0.3, 0.5, 1.0)


@st.composite
def strike(draw, S, width=3.0):
    """A strike near the forward in units of a typical move, or at the money."""
    k = draw(st.integers(0, 9))
    if k == 0:
        return S
    m = draw(real(-width, width, (0.0,)))
    return sig(S * math.exp(m))


@st.composite
def carry(draw, r, lo=-0.2, hi=0.3):
    """b, covering the four published conventions: b = r, b = 0, b = r - q, anything."""
    k = draw(st.integers(0, 9))
    if k <= 1:
        return r
    if k <= 3:
        return 0.0
    if k <= 6:
        return sig(r - draw(pos(0.001, 0.15, (0.02, 0.05))))
    return draw(real(lo, hi))


@st.composite
def market(draw, rlo=-0.05, rhi=0.25, tmax=10.0, tmin=0.002, smin=0.03, smax=2.0, width=3.0,
           slo=0.01, shi=1e5, z=None):
    """S, K, t, r, b, sigma.  The strike is drawn in standard deviations of log(S_t / forward)
    part of the time so that every region of the formula is hit for every volatility."""
    S = draw(pos(slo, shi, PRICES))
    t = draw(pos(tmin, tmax, TIMES))
    r = draw(real(rlo, rhi, RATES + (0.0,)))
    b = draw(carry(r))
    s = draw(pos(smin, smax, VOLS))
    if draw(st.booleans()):
        m = draw(real(-(z or 4.0), z or 4.0, (0.0,)))
        x = b * t - m * s * math.sqrt(t)
        K = sig(S * math.exp(max(-20, min(20, x))))
    else:
        K = draw(strike(S, width))
    if min(S, K) >= 20 and draw(st.integers(0, 5)) == 0:
        S, K = float(round(S)), float(round(K))
    return {"S": S, "K": K, "t": t, "r": r, "b": b, "sigma": s}


@st.composite
def wide_market(draw, rlo=-0.1, rhi=0.5, tlo=1e-4, thi=40.0, slo=1e-6, shi=1e8, vlo=0.005, vhi=4.0):
    """Far beyond quoted markets: the formulas do not care."""
    S, t, s = draw(pos(slo, shi)), draw(pos(tlo, thi)), draw(pos(vlo, vhi))
    r = draw(real(rlo, rhi))
    k = draw(st.integers(0, 3))
    b = r if k == 0 else 0.0 if k == 1 else draw(real(-0.4, 0.5))
    if draw(st.integers(0, 3)):
        x = b * t + draw(real(-4.0, 4.0)) * s * math.sqrt(t)
        K = sig(S * math.exp(max(-25.0, min(25.0, x))))
    else:
        K = draw(pos(S / 1e4, S * 1e4))
    return {"S": S, "K": K, "t": t, "r": r, "b": b, "sigma": s}


def mostly(a, b, weight=5):
    """a, and once in weight + 1 cases b."""
    return weighted([a, b], [weight, 1])


def cast(kind, v):
    """The same number as another type callers use."""
    import numpy as np

    if kind == "float":
        return v
    if kind == "int":
        return int(v) if float(v).is_integer() else v
    if kind == "np":
        return np.float64(v)
    if kind == "npint":
        return np.int64(v) if float(v).is_integer() else np.float64(v)
    raise ValueError(kind)


CASTS = st.sampled_from(["float", "float", "float", "int", "np"])
