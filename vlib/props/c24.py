"""C24 prices are covariant under changes of units."""
import math

from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Reject, Sub, close

RULE = (
    "A case is an option class, a contract, and a change of the unit of money (factor c) or of time "
    "(factor a): the same contract in other units must have the same value in those units."
)
NAMES = ("GBS", "BS", "B76", "MS", "RGW", "BAW", "BS93", "CRR", "JR", "TIAN", "TRI", "SALL", "SMAX", "SMIN", "SSPR", "SAPX")


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES + ("SALL",) * 4))  # nine payoffs
    p = draw(models.params(name, nmax=12))
    far = name != "RGW" and draw(st.booleans())
    money = draw(st.integers(-60, 36)) / 4 if far else draw(gen.real(-5.0, 5.0))
    return {"cls": name, "p": p, "money": gen.sig(math.exp(money)), "time": gen.sig(math.exp(draw(gen.real(-2.5, 4.0))))}


def money(name, p, c):
    """The contract with all amounts of money multiplied by c; and the factor of its price."""
    q = dict(p)
    if name in models.TWO_ASSET:
        option = p.get("option", 1)
        q["S1"], q["S2"] = c * p["S1"], c * p["S2"]
        f = {8: 1.0, 9: c * c}.get(option, c)
        for k in ("K", "K2"):
            if p.get(k) is not None:
                q[k] = f * p[k]
        return q, f
    for k in ("S", "FT", "K", "D"):
        if k in p:
            q[k] = c * p[k]
    return q, c


def clock(name, p, a):
    """The contract with time measured in units 1/a of the old."""
    q = dict(p)
    for k in ("t", "T", "td"):
        if k in p:
            q[k] = a * p[k]
    for k in ("r", "b", "b1", "b2", "KappaE", "KappaF"):
        if k in p:
            q[k] = p[k] / a
    for k in ("sigma", "sigma1", "sigma2", "sigmaS"):
        if k in p:
            q[k] = p[k] / math.sqrt(a)
    for k in ("sigmaE", "sigmaF"):
        if k in p:
            q[k] = p[k] / a**1.5
    return q


def scale(name, p):
    if name in models.TWO_ASSET:
        from vlib.props import c14

        q = dict(p)
        q.setdefault("option", c14.OPT.get(name, 1))
        return 2 * c14.notional(q) + abs(p.get("K") or 0) + abs(p.get("K2") or 0)
    S = p["FT"] if "FT" in p else p["S"]
    g = abs(p.get("b", 0.0)) * p["t"] + abs(p.get("r", 0.0)) * p["t"]
    return (S + p["K"]) * math.exp(min(g, 3.0))


# relative to the notional: rounding only, except where a critical price is searched for
TOL = {"BAW": 6e-6, "RGW": 4e-6, "BS93": 1e-7}
STEP = {}


def run(c, rec):
    name, p = c["cls"], c["p"]
    N = scale(name, p)
    m, f = money(name, p, c["money"])
    t = clock(name, p, c["time"])
    if name == "BS93":
        if c08_amplification(p) * 1e-12 > 1e-8:
            raise Reject()
    base = models.build(name, p)
    rich = models.build(name, m)
    slow = models.build(name, t)
    tol = N * TOL.get(name, 1e-9)
    for call in (True, False):
        if not call and not models.has_put(name):
            continue
        w = "call" if call else "put"
        v = models.price(name, base, call)
        x = models.price(name, rich, call)
        y = models.price(name, slow, call)
        extra = STEP.get(name, 0.0) * (1 + 1 / f)
        close(x / f, v, tol + extra, f"{name} {w}: price in money of another unit (factor {f:g})")
        close(y, v, tol + extra, f"{name} {w}: price with time in another unit (factor {c['time']:g})")
        rec.nt(v > 1e-4 * N)
    if name in models.TWO_ASSET:
        # a position of Q units is the position of one unit of Q times the price
        one = dict(p, S1=p["Q1"] * p["S1"], S2=p["Q2"] * p["S2"], Q1=1, Q2=1)
        o = models.build(name, one)
        for call in (True, False):
            close(models.price(name, o, call), models.price(name, base, call), tol, f"{name}: Q units vs one unit of Q times the price")
    rec.label(name)


def c08_amplification(p):
    from vlib import ref

    a = [p[k] for k in ("S", "K", "t", "r", "b", "sigma")]
    worst = 0.0
    for call in (True, False):
        ref.bs93(*a, call)
        worst = max(worst, getattr(ref.bs93_call, "magnitude", 0.0) / (p["S"] + p["K"]))
    return worst


SUBS = [Sub("units", cases(), run, 3500, rule="a price above 1e-4 of the notional")]
