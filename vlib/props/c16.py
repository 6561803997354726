"""C16 spread option approximation (Kirk, with carry)."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut

RULE = "A case is one European spread contract max(Q1 S1 - Q2 S2 - K, 0), K >= 0, or its put."
ORDER = ("S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho")


@st.composite
def cases(draw, wide=False):
    p = draw(models.spread_params("SAPX", wide=wide))
    p["rho"] = max(-0.999, min(0.999, p["rho"]))
    if draw(st.integers(0, 5)) == 2:
        p["K"] = 0.0
    return {"p": p, "kw": draw(st.booleans()), "default": draw(st.booleans()), "as": draw(gen.CASTS)}


def run(c, rec):
    p = c["p"]
    q = {k: gen.cast(c["as"], v) for k, v in p.items()}
    if c["default"] and (p["Q1"], p["Q2"]) == (1, 1):
        del q["Q1"], q["Q2"]
    o = models.build("SAPX", q, kw=c["kw"])
    a = [p[k] for k in ORDER]
    X = p["Q1"] * p["S1"] * math.exp((p["b1"] - p["r"]) * p["t"])
    Y = p["Q2"] * p["S2"] * math.exp((p["b2"] - p["r"]) * p["t"])
    k = p["K"] * math.exp(-p["r"] * p["t"])
    N = X + Y + k
    call, put = num(sut("call()", o.call)), num(sut("put()", o.put))
    close(call, ref.spread_approx(*a, p["Q1"], p["Q2"], True), 1.2e-7 * N + 1e-12, "call vs formula")
    close(put, ref.spread_approx(*a, p["Q1"], p["Q2"], False), 1.2e-7 * N + 1e-12, "put vs formula")
    close(call - put, X - Y - k, 1e-8 * N, "call - put vs discounted forward spread")
    ensure(call >= max(0.0, X - Y - k) - 1.2e-7 * N and put >= max(0.0, Y + k - X) - 1.2e-7 * N, "price below its lower bound")
    if p["K"] == 0:
        # Margrabe's exchange option: exact, and free of the interest rate for given carries
        s = math.sqrt(p["sigma1"] ** 2 + p["sigma2"] ** 2 - 2 * p["rho"] * p["sigma1"] * p["sigma2"])
        want = float(ref.gbs(X, Y, p["t"], 0.0, 0.0, s, True))
        close(call, want, 1.5e-7 * N + 1e-12, "zero strike vs Margrabe")
        rec.label("K = 0")
    rec.label("Q = 1" if (p["Q1"], p["Q2"]) == (1, 1) else "Q1 or Q2 != 1")
    rec.nt(min(call, put) > 1e-4 * N)


def lattice(c, rec):
    """Against Rubinstein's lattice (an independent model of the same contract): the
    approximation stays within its known error plus the lattice's discretisation error."""
    p = {k: v for k, v in c["p"].items()}
    p["K"] = min(p["K"], 0.25 * p["Q2"] * p["S2"])
    if p["rho"] > 0.7:
        p["rho"] = 0.7
    N = p["Q1"] * p["S1"] + p["Q2"] * p["S2"] + p["K"]
    vol = max(p["sigma1"], p["sigma2"]) * math.sqrt(p["t"])
    if vol > 0.8:
        p["t"] = gen.sig(p["t"] * (0.8 / vol) ** 2)
        vol = max(p["sigma1"], p["sigma2"]) * math.sqrt(p["t"])
    o = models.build("SAPX", p)
    n = 24
    for call in (True, False):
        v = num(sut("price", o.call if call else o.put))
        want = 0.5 * sum(ref.spread_lattice(**p, option=1, n=m, call=call) for m in (n, n + 1))
        carry = (abs(p["b1"]) + abs(p["b2"]) + abs(p["r"])) * p["t"]
        close(v, want, N * (0.3 * vol / n + 0.02 * vol + 0.02 * vol * carry), "approximation vs two-asset lattice")
        rec.nt(want > 0.02 * N)


SUBS = [
    Sub("formula", cases(wide=True), run, 5000, rule="call and put above 1e-4 of the notional"),
    Sub("lattice", cases(), lattice, 800, rule="a price above 2 % of the notional"),
]
