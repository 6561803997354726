"""C17 Heston-Nandi GARCH option prices and Greeks."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut

RULE = (
    "A case is one contract under a stationary Heston-Nandi model (persistence below 1 under both the "
    "physical and the risk-neutral law) that starts from its stationary variance."
)
ORDER = ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma")
TOL_P, TOL_D, TOL_G = 3e-7, 1e-6, 2e-5


def _args(p):
    return [p[k] for k in ORDER]


def run(c, rec):
    p = c["p"]
    q = dict(p)
    for k in ("S", "K"):
        q[k] = gen.cast(c["as"], q[k])
    o = models.build("HN", q, kw=c["kw"])
    S, K, t, r = p["S"], p["K"], p["t"], p["r"]
    N = S + K
    s2 = ref.hn_sigma2(*_args(p)[4:])
    vol = math.sqrt(s2 * t)
    want, wd, wg = ref.hn_call(*_args(p))
    call = num(sut("call()", o.call))
    put = num(sut("put()", o.put))
    close(call, want, TOL_P * N, "call vs characteristic-function inversion")
    close(put, want - S + K * math.exp(-r * t), TOL_P * N, "put vs characteristic-function inversion and parity")
    low = max(S - K * math.exp(-r * t), 0.0)
    ensure(low - TOL_P * N <= call <= S + TOL_P * N, f"call {call} outside [{low}, {S}]")
    if c["greeks"]:
        d = num(sut("delta()", o.delta))
        close(d, wd, TOL_D, "call delta")
        close(num(sut("delta(call=True)", o.delta, call=True)), wd, TOL_D, "delta(call=True)")
        close(num(sut("delta(call=False)", o.delta, call=False)), wd - 1, TOL_D, "put delta")
        g = num(sut("gamma()", o.gamma))
        close(g * S * vol, wg * S * vol, TOL_G, "gamma * S * volatility")
        rec.label("greeks")
    bs = float(ref.gbs(S, K, float(t), r, r, math.sqrt(s2), True))
    time = call - low
    rec.label("t=1" if t == 1 else "t<=5" if t <= 5 else "t>5", "gamma=0" if p["gamma"] == 0 else "gamma!=0")
    rec.nt(t > 1 and time > 1e-3 * vol * S and abs(want - bs) > 20 * TOL_P * N)


@st.composite
def cases(draw, tmax=24):
    return {"p": draw(models.hn_params(tmax=tmax)), "as": draw(gen.CASTS), "kw": draw(st.booleans()),
            "greeks": draw(st.integers(0, 2)) == 0}


def short(p, rec):
    """One to three days: straight from the definition of the process."""
    if p["t"] > 3:
        p = dict(p, t=1 + p["t"] % 3)
    want = ref.hn_call_by_mixing(*_args(p), nodes=96 if p["t"] == 3 else 180)
    o = models.build("HN", p)
    N = p["S"] + p["K"]
    call = num(sut("call()", o.call))
    close(call, want, 1e-6 * N, f"{p['t']}-day call vs integration over the GARCH recursion")
    vol = math.sqrt(ref.hn_sigma2(*_args(p)[4:]) * p["t"])
    rec.label(f"t={p['t']}")
    rec.nt(p["t"] > 1 and want - max(p["S"] - p["K"] * math.exp(-p["r"] * p["t"]), 0) > 1e-3 * vol * p["S"])


@st.composite
def limits(draw):
    p = draw(models.hn_params(tmax=15))
    return {"p": p, "c": gen.sig(math.exp(draw(gen.real(-4.0, 4.0)))), "gamma2": draw(gen.real(-300.0, 300.0))}


def limit(c, rec):
    """alpha = 0: constant variance, Black-Scholes.  Prices scale with (S, K)."""
    p, k = c["p"], c["c"]
    N = p["S"] + p["K"]
    flat = dict(p, alpha=0.0)
    s2 = p["omega"] / (1 - p["beta"])
    bs = float(ref.gbs(p["S"], p["K"], float(p["t"]), p["r"], p["r"], math.sqrt(s2), True))
    call = num(sut("call()", models.build("HN", flat).call))
    close(call, bs, TOL_P * N, "alpha = 0: call vs Black-Scholes with variance omega / (1 - beta) a day")
    one = num(sut("call()", models.build("HN", p).call))
    big = dict(p, S=p["S"] * k, K=p["K"] * k)
    close(num(sut("call()", models.build("HN", big).call)) / k, one, 2 * TOL_P * N, f"price of {k:g} times the contract")
    # only gamma + lambda matters to a risk-neutral price
    g = dict(p, gamma=p["gamma"] + c["gamma2"] / 100, lamb=p["lamb"] - c["gamma2"] / 100)
    close(num(sut("call()", models.build("HN", g).call)), one, 2 * TOL_P * N, "price depends on lambda and gamma only through their sum")
    vol = math.sqrt(s2 * p["t"])
    rec.nt(p["t"] > 1 and min(bs, one) > 1e-3 * vol * p["S"])


@st.composite
def long_cases(draw):
    c = draw(cases())
    c["p"]["t"] = draw(st.one_of(st.integers(25, 90), st.integers(91, 252)))
    return c


@st.composite
def years(draw):
    """More than a year: only one of the four values, the sum over days is slow."""
    p = draw(models.hn_params(tmax=20))
    t = int(round(253 * 4 ** (draw(st.integers(0, 1000)) / 1000)))
    p["K"] = gen.sig(p["S"] * (p["K"] / p["S"]) ** math.sqrt(t / p["t"]))
    if not 1e-3 < p["K"] / p["S"] < 1e3:
        p["K"] = p["S"]
    return {"p": dict(p, t=t), "ask": draw(st.sampled_from(["call", "call", "call", "put", "delta", "gamma"]))}


def year(c, rec):
    p, ask = c["p"], c["ask"]
    S, K, t, r = p["S"], p["K"], p["t"], p["r"]
    want, wd, wg = ref.hn_call(*_args(p))
    vol = math.sqrt(ref.hn_sigma2(*_args(p)[4:]) * t)
    v = num(sut(f"{ask}()", getattr(models.build("HN", p), ask)))
    if ask == "call":
        close(v, want, TOL_P * (S + K), f"call of {t} days")
    elif ask == "put":
        close(v, want - S + K * math.exp(-r * t), TOL_P * (S + K), f"put of {t} days")
    elif ask == "delta":
        close(v, wd, TOL_D, f"delta of {t} days")
    else:
        close(v * S * vol, wg * S * vol, TOL_G, f"gamma of {t} days * S * volatility")
    rec.label(ask, "t<=504" if t <= 504 else "t>504")
    rec.nt(want - max(S - K * math.exp(-r * t), 0.0) > 1e-3 * vol * S)


SUBS = [
    Sub("price", cases(), run, 320, 4000, rule="more than a day, time value above 1e-3 of a standard deviation, and GARCH moves the price by 20 tolerances from Black-Scholes"),
    Sub("long", long_cases(), run, 48, 800, rule="as for price"),
    Sub("years", years(), year, 24, 400, rule="time value above 1e-3 of a standard deviation"),
    Sub("short", models.hn_params(tmax=3), short, 500, 6000, rule="more than a day, time value above 1e-3 of a standard deviation"),
    Sub("limits", limits(), limit, 160, 2400, rule="more than a day, price above 1e-3 of a standard deviation"),
]
