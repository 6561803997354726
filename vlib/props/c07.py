"""C07 Barone-Adesi and Whaley."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut

models.WHOLE = True
RULE = "A case is one American contract (S, K, t, r > 0 or r = 0, b, sigma)."


@st.composite
def cases(draw):
    m = draw(gen.mostly(gen.market(rlo=0.0, rhi=0.25, tmin=0.01, tmax=6.0, smin=0.06, smax=1.2, z=4.0, width=1.5, slo=0.1, shi=1e4), gen.wide_market(rlo=0.0, vlo=0.02, vhi=3.0)))
    m["r"] = abs(m["r"])
    m["b"] = max(m["b"], -0.4)
    return m


def run(p, rec):
    S, K, t, r, b, s = (p[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    o = models.build("BAW", p)
    N = S + K
    for call in (True, False):
        v = num(sut("call()" if call else "put()", o.call if call else o.put))
        name = "call" if call else "put"
        euro = float(ref.gbs(S, K, t, r, b, s, call))
        intr = max(0.0, (S - K) if call else (K - S))
        tol = 3e-6 * N + 1e-12
        ensure(v >= euro - tol, f"American {name} {v} below the European {euro}")
        ensure(v >= intr - tol, f"American {name} {v} below its exercise value {intr}")
        if call and b >= r:
            close(v, euro, 1.2e-7 * (S * math.exp((b - r) * t) + K * math.exp(-r * t)), "call with b >= r is European")
            rec.label("call b>=r")
            continue
        if r < 1e-3:
            # the quadratic approximation's X = 2r/(s^2 (1-e^-rt)) tends to 2/(s^2 t)
            rr = r if r > 0 else 1e-9
            want, crit = ref.baw(S, K, t, rr, b, s, call)
            rec.label("r < 0.001")
        else:
            want, crit = ref.baw(S, K, t, r, b, s, call)
        close(v, want, tol, f"{name} vs quadratic approximation (critical price {crit:.6g})")
        if (S >= crit) if call else (S <= crit):
            rec.label(f"{name} exercised")
        else:
            rec.label(f"{name} held")
            rec.nt(want - max(euro, intr) > 20 * tol)


SUBS = [Sub("price", cases(), run, 4000, rule="an early-exercise premium above twenty tolerances, short of exercise")]
