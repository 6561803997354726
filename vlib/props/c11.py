"""C11 American lattice prices solve the optimal stopping problem on the lattice."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, close, ensure, num, sut

models.WHOLE = True
RULE = (
    "A case is a lattice class, one American contract and the number of steps; the oracle is dynamic "
    "programming over the published lattice."
)


@st.composite
def cases(draw):
    name = draw(st.sampled_from(models.TREES))
    p = draw(models.tree_params(name, nmax=30, american=True, z=3.0, tmax=6.0, wide=True))
    if draw(st.integers(0, 2)) == 0:
        # calls are exercised early when the carry is well below the rate
        p["b"] = gen.sig(min(p["b"], -0.5 * abs(p["b"])))
    return {"cls": name, "p": p}


def run(c, rec):
    name, p = c["cls"], c["p"]
    if not models.lattice_ok(name, p):
        raise Reject()
    S, K, t, r, b, s, n = (p[k] for k in ("S", "K", "t", "r", "b", "sigma", "n"))
    o, e = models.build(name, p), models.build(name, dict(p, type="european"))
    N = S * math.exp((b - r) * t) + K * math.exp(-r * t) + S + K
    for call in (True, False):
        w = "call" if call else "put"
        v = num(sut(w, o.call if call else o.put))
        u = num(sut(w, e.call if call else e.put))
        want = ref.lattice_price(name, S, K, t, r, b, s, n, call, True)
        close(v, want, 1e-9 * N, f"{name} American {w}, {n} steps, vs dynamic programming")
        intr = max(0.0, S - K if call else K - S)
        ensure(v >= u - 1e-9 * N, f"American {w} {v} below the European {u} on the same lattice")
        ensure(v >= intr - 1e-9 * N, f"American {w} {v} below its exercise value {intr}")
        if call and b >= r >= 0 and name != "JR":
            close(v, u, 1e-9 * N, f"{name} American call with b >= r >= 0 is European")
            rec.label("call never exercised")
        if v > u + 1e-6 * N:
            rec.label(f"{name} {w}: " + ("exercised now" if v <= intr + 1e-9 * N else "early exercise premium"))
        rec.nt(v > max(u, intr) + 1e-6 * N)
    rec.label(name, "n=1" if n == 1 else "n<=5" if n <= 5 else "n>5")


SUBS = [Sub("american", cases(), run, 5000, rule="a premium above the European and exercise values, without immediate exercise")]
