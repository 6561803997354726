"""C25 the American option models price the same contract alike."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, close, ensure, num, sut

models.WHOLE = True
RULE = (
    "A case is one American contract.  Oracle: an independent CRR lattice (average of 300 and 301 "
    "steps, with the European value as control variate); the tolerance covers the known error of the analytical approximations."
)


@st.composite
def cases(draw):
    m = draw(gen.market(rlo=0.005, rhi=0.2, tmin=0.02, tmax=3.0, smin=0.1, smax=0.8, z=2.5, width=0.6, slo=1.0, shi=1000))
    m["b"] = min(max(m["b"], -m["r"], -0.12), 0.2)
    return m


def run(p, rec):
    S, K, t, r, b, s = (p[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    if abs(b) * math.sqrt(t / 300) > 0.3 * s:
        raise Reject()
    v = s * math.sqrt(t)
    N = S + K
    for call in (True, False):
        w = "call" if call else "put"
        euro = float(ref.gbs(S, K, t, r, b, s, call))
        # the same lattice's European value as control variate
        want = euro + 0.5 * sum(
            ref.lattice_price("CRR", S, K, t, r, b, s, n, call, True) - ref.lattice_price("CRR", S, K, t, r, b, s, n, call, False)
            for n in (300, 301)
        )
        x = models.price("BAW", models.build("BAW", p), call)
        close(x, want, (TOL["BAW"] + 0.03 * r * t) * N * v + 2e-6 * N, f"BAW {w} vs lattice")
        # the flat boundary is a feasible strategy, so a lower bound; it is loose for strong carry
        # and for low rates
        y = models.price("BS93", models.build("BS93", p), call)
        rate = r if call else r - b
        if not call and rate <= 0:
            continue
        if (b if call else -b) * t + 2 * v > 0:
            ensure(y <= want + TOL["up"] * N * v + 2e-6 * N, f"BS93 {w} {y} above the lattice {want}")
        if abs(b) * t <= v and rate >= 0.03:
            close(y, want, TOL["BS93"] * N * v + 2e-6 * N, f"BS93 {w} vs lattice")
        rec.label(w + (" with early exercise premium" if want > euro + 1e-3 * N * v else ""))
        rec.nt(want > euro + 2 * (TOL["BAW"] + 0.03 * r * t) * N * v)


TOL = {"BAW": 0.008, "BS93": 0.016, "up": 0.001}


SUBS = [Sub("agreement", cases(), run, 1000, rule="a lattice price more than twice the tolerance above the European value")]
