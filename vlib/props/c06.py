"""C06 Miltersen-Schwartz commodity options."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, close, ensure, num, sut

models.WHOLE = True
RULE = "A case is one Miltersen-Schwartz contract with a positive definite correlation matrix."


def _ref(p, call):
    return ref.ms(p["Pt"], p["FT"], p["K"], p["t"], p["T"], p["sigmaS"], p["sigmaE"], p["sigmaF"],
                  p["rhoSE"], p["rhoSF"], p["rhoEF"], p["KappaE"], p["KappaF"], call)


def run(p, rec):
    v2, cov = ref.ms_var(p["t"], p["T"], p["sigmaS"], p["sigmaE"], p["sigmaF"], p["rhoSE"], p["rhoSF"], p["rhoEF"], p["KappaE"], p["KappaF"])
    o = models.build("MS", p)
    N = p["Pt"] * (p["FT"] * max(1.0, math.exp(-cov)) + p["K"])
    # polynomial N(x): 7.5e-8; the closed form cancels like eps / (kappa t)^3 for slow mean reversion
    k = min(p["KappaE"], p["KappaF"])
    tol = 2e-7 * N + N * 1e-15 / min(1.0, k * p["t"]) ** 2 / math.sqrt(v2)
    c, q = num(sut("call()", o.call)), num(sut("put()", o.put))
    close(c, _ref(p, True), tol, "call vs integrated variance and covariance")
    close(q, _ref(p, False), tol, "put vs integrated variance and covariance")
    fwd = p["FT"] * math.exp(-cov)
    close(c - q, p["Pt"] * (fwd - p["K"]), 1e-8 * N, "call - put vs discounted forward minus strike")
    ensure(c >= -tol and q >= -tol, f"negative price: call {c}, put {q}")
    rec.label("t = T" if p["t"] == p["T"] else "t < T")
    rec.label("vol correlations" if (p["rhoSE"], p["rhoSF"], p["rhoEF"]) != (0, 0, 0) else "uncorrelated")
    plain = math.sqrt(p["t"]) * p["sigmaS"]
    rec.nt(min(c, q) > 1e-4 * N and abs(math.sqrt(v2) / plain - 1) > 0.003)


@st.composite
def limits(draw):
    p = draw(models.ms_params(wide=True))
    p["limit"] = draw(st.sampled_from(["black76", "noconv", "homog"]))
    p["f"] = draw(gen.pos(0.1, 20.0))
    return p


def limit(p, rec):
    """Deterministic convenience yield and rates: Black 76 with the bond as discount factor.
    Homogeneous of degree one in (FT, K) and linear in Pt."""
    p = dict(p)
    kind, f = p.pop("limit"), p.pop("f")
    rec.label(kind)
    N = p["Pt"] * (p["FT"] + p["K"])
    if kind == "homog":
        o = models.build("MS", p)
        big = models.build("MS", dict(p, FT=p["FT"] * f, K=p["K"] * f))
        half = models.build("MS", dict(p, Pt=p["Pt"] * 0.5))
        for a, b, h in ((o.call, big.call, half.call), (o.put, big.put, half.put)):
            x = num(sut("price", a))
            close(num(sut("price", b)), f * x, 1e-8 * f * N, "homogeneous in (FT, K)")
            close(num(sut("price", h)), x / 2, 1e-8 * N, "linear in the bond price")
            rec.nt(x > 1e-4 * N)
        return
    if kind == "black76":
        p["sigmaE"] = p["sigmaF"] = 0.0
    else:
        p["sigmaF"] = 0.0
        p["rhoSE"] = 0.0
    o = models.build("MS", p)
    v2, _ = ref.ms_var(p["t"], p["T"], p["sigmaS"], p["sigmaE"], p["sigmaF"], p["rhoSE"], p["rhoSF"], p["rhoEF"], p["KappaE"], p["KappaF"])
    s = math.sqrt(v2 / p["t"])
    r = -math.log(p["Pt"]) / p["t"]
    for call, m in ((True, o.call), (False, o.put)):
        x = num(sut("price", m))
        close(x, float(ref.gbs(p["FT"], p["K"], p["t"], r, 0.0, s, call)), 2e-7 * N, "Black 76 limit")
        rec.nt(x > 1e-4 * N)


def _diff(f, x, h):
    return (8 * (f(x + h) - f(x - h)) - (f(x + 2 * h) - f(x - 2 * h))) / (12 * h)


def greeks(p, rec):
    """Greeks against derivatives of the integrated model (not of the class's own price)."""
    p = dict(p)
    call = p.pop("call")
    if p["t"] < 0.1:
        # room for the one-business-day step of theta
        f = 0.11 / p["t"]
        p["t"], p["T"] = gen.sig(p["t"] * f), gen.sig(p["T"] * f)
        p["T"] = max(p["T"], p["t"])
    v2, cov = ref.ms_var(p["t"], p["T"], p["sigmaS"], p["sigmaE"], p["sigmaF"], p["rhoSE"], p["rhoSF"], p["rhoEF"], p["KappaE"], p["KappaF"])
    vol, N = math.sqrt(v2), p["Pt"] * (p["FT"] + p["K"])
    if vol < 0.05 or min(p["KappaE"], p["KappaF"]) * p["t"] < 0.02 or p["FT"] < 10:
        raise Reject()
    o = models.build("MS", p)

    def f(k):
        return lambda x: _ref(dict(p, **{k: x}), call)

    def fc(k):
        return lambda x: _ref(dict(p, **{k: x}), True)

    F = p["FT"]
    d = num(sut("delta", o.delta, call=call))
    want = _diff(f("FT"), F, 0.02 * vol * F)
    close(d, want, 3e-4 * N / F, "delta vs the model's")
    price = _ref(p, call)
    if price > 1e-3 * N:
        g = num(sut("lamb", o.lamb, call=call))
        close(g, want * F / price, 3e-4 * N / price + 1e-6 * N * abs(want) * F / price**2, "lambda vs the model's")
    h = 0.05 * vol * F
    fF = fc("FT")
    close(num(sut("gamma", o.gamma)), (fF(F + h) - 2 * fF(F) + fF(F - h)) / h**2, 4e-3 * N / F**2 / min(vol, 1.0), "gamma vs the model's")
    v = list(map(float, sut("vega", o.vega)))
    ensure(len(v) == 3, f"vega() has {len(v)} entries")
    moved = False
    for got, k in zip(v, ("sigmaS", "sigmaE", "sigmaF")):
        w = _diff(fc(k), p[k], 0.02 * p[k])
        rough = abs(_diff(fc(k), p[k], 0.05 * p[k]) - w)
        close(got, w, 3e-4 * N * max(math.sqrt(p["t"]), 0.2) + 5 * rough, f"vega to {k} vs the model's")
        moved |= abs(w) > 0.02 * N
    # theta: the option's expiry moves, bond, futures price and futures maturity stay
    if p["T"] - p["t"] > 0.02:
        w = -_diff(f("t"), p["t"], min(0.005 * p["t"], (p["T"] - p["t"]) / 4))
        rough = abs(w + _diff(f("t"), p["t"], min(0.01 * p["t"], (p["T"] - p["t"]) / 3)))
        close(num(sut("theta", o.theta, call=call)), w, 5e-4 * N * (vol / p["t"] + 0.05) + 5 * rough, "theta vs the model's")
    rec.label("call" if call else "put")
    rec.nt(moved and price > 1e-3 * N)


@st.composite
def greek_cases(draw):
    p = draw(models.ms_params())
    p["call"] = draw(st.booleans())
    return p


SUBS = [
    Sub("price", models.ms_params(wide=True), run, 5000, rule="call and put worth more than 1e-4 of the notional, and the total volatility differs by 0.3 % from that of the spot alone"),
    Sub("limits", limits(), limit, 2000, rule="a price above 1e-4 of the notional"),
    Sub("greeks", greek_cases(), greeks, 600, rule="a vega above 2 % and a price above 0.1 % of the notional"),
]
