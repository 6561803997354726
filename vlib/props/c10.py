"""C10 European lattice prices are discounted expectations over the lattice's terminal law."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, close, ensure, num, sut

RULE = (
    "A case is a lattice class, one European contract and the number of steps.  The oracle is the "
    "discounted expectation over the published terminal law (no backward induction); cases whose "
    "branch probabilities leave (0, 1) are outside the domain."
)


@st.composite
def cases(draw):
    name = draw(st.sampled_from(models.TREES))
    p = draw(models.tree_params(name, nmax=40, american=False, z=4.0, tmax=8.0, wide=True))
    if draw(st.integers(0, 4)) == 0:
        for k in ("S", "K"):
            p[k] = float(max(1, round(p[k])))
    return {"cls": name, "p": p, "as": draw(gen.CASTS), "default": draw(st.booleans()), "kw": draw(st.booleans())}


def obj(c):
    p = dict(c["p"])
    if c["default"] and p["type"] == "european":
        del p["type"]
        if p["n"] == 5:
            del p["n"]
    for k in ("S", "K", "t", "r", "b", "sigma"):
        p[k] = gen.cast(c["as"], p[k])
    return models.build(c["cls"], p, kw=c["kw"] or "type" not in p)


def run(c, rec):
    name, p = c["cls"], c["p"]
    if not models.lattice_ok(name, p):
        raise Reject()
    S, K, t, r, b, s, n = (p[k] for k in ("S", "K", "t", "r", "b", "sigma", "n"))
    o = obj(c)
    N = S * math.exp((b - r) * t) + K * math.exp(-r * t) + S
    got = {}
    for call in (True, False):
        got[call] = num(sut("price", o.call if call else o.put))
        want = ref.binom_expectation(name, S, K, t, r, b, s, n, call)
        close(got[call], want, 1e-9 * N, f"{name} European {'call' if call else 'put'}, {n} steps, vs expectation")
    # every lattice reprices its own forward; all but Jarrow-Rudd are martingales exactly
    u, d, pr, df = ref.lattice(name, t, r, b, s, n)
    F = S * math.exp((b - r) * t)
    if name == "JR":
        F = S * (0.5 * (u + d) * df) ** n
    close(got[True] - got[False], F - K * math.exp(-r * t), 1e-9 * N, f"{name} call - put vs discounted forward minus strike")
    rec.label(name, "n=1" if n == 1 else "n<=5" if n <= 5 else "n>5", "odd" if n % 2 else "even")
    rec.nt(min(got.values()) > 1e-5 * N and n > 1)


SUBS = [Sub("european", cases(), run, 6000, rule="call and put above 1e-5 of the notional and at least two steps")]
