"""C13 lattices converge to the continuous-time prices."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, close, ensure, num, sut

models.WHOLE = True
RULE = (
    "A case is a contract and a number of steps between 20 and 90, or between 120 and 240.  Oracles: the closed form for "
    "European contracts, and for American ones a reference CRR lattice with 400 to 800 steps."
)


# largest errors seen, in these units: 0.10 (binomial) and 0.05 (trinomial) for European contracts,
# 0.07 and 0.035 for American ones
EURO = {"CRR": 0.18, "JR": 0.18, "TIAN": 0.18, "TRI": 0.13}
AMER = {"CRR": 0.14, "JR": 0.14, "TIAN": 0.14, "TRI": 0.14}


@st.composite
def cases(draw, nlo, nhi):
    name = draw(st.sampled_from(models.TREES))
    p = draw(gen.market(rlo=0.0, rhi=0.15, tmin=0.05, tmax=2.0, smin=0.1, smax=0.6, z=1.5, width=0.3, slo=1.0, shi=1000))
    p["r"] = abs(p["r"])
    p["b"] = max(-0.1, min(0.2, p["b"]))
    p["n"] = draw(st.integers(nlo, nhi))
    p["type"] = draw(st.sampled_from(["european", "american"]))
    return {"cls": name, "p": p, "call": draw(st.booleans())}


def run(c, rec):
    name, p, call = c["cls"], c["p"], c["call"]
    S, K, t, r, b, s, n = (p[k] for k in ("S", "K", "t", "r", "b", "sigma", "n"))
    if abs(b) * math.sqrt(t / n) > 0.25 * s:
        raise Reject()
    o = models.build(name, p)
    v = num(sut("price", o.call if call else o.put))
    vol = s * math.sqrt(t)
    scale = S * math.exp((b - r) * t) + K * math.exp(-r * t)
    if p["type"] == "european":
        want = float(ref.gbs(S, K, t, r, b, s, call))
        # discretisation: oscillation of order vol / n, drift terms of order (b t)^2 / n
        tol = EURO[name] * scale * (0.5 * vol + 0.5 * (abs(b) * t) ** 2 / vol + 0.2 * vol**3) / n
    else:
        want = 0.5 * (_fast_crr(S, K, t, r, b, s, 400, call) + _fast_crr(S, K, t, r, b, s, 401, call))
        tol = AMER[name] * scale * (0.7 * vol + 0.7 * (abs(b) * t) ** 2 / vol + 0.3 * vol**3 + 0.2 * r * t) / n
    close(v, want, tol, f"{name} {p['type']} {'call' if call else 'put'} with {n} steps vs continuous time")
    rec.label(name, p["type"], "call" if call else "put")
    rec.nt(want > 5 * tol)


def _fast_crr(S, K, t, r, b, s, n, call):
    return ref.lattice_price("CRR", S, K, t, r, b, s, n, call, True)


SUBS = [
    Sub("convergence", cases(20, 90), run, 700, rule="a price above five times the discretisation tolerance"),
    Sub("fine lattices", cases(120, 240), run, 120, thorough=1500, rule="a price above five times the discretisation tolerance"),
]
