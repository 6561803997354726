"""C09 Roll-Geske-Whaley."""
import math

from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut

models.WHOLE = True
RULE = "A case is an American call on a stock that pays one known dividend D at td < t."


def run(p, rec):
    S, K, t, td, r, D, s = (p[k] for k in ("S", "K", "t", "td", "r", "D", "sigma"))
    o = models.build("RGW", p)
    opt = sut("is_call_optimal()", o.is_call_optimal)
    never = K * -math.expm1(-r * (t - td))
    if abs(D - never) > 1e-9 * K:
        ensure(bool(opt) == (D > never), f"is_call_optimal() is {opt} for D={D}, K(1-exp(-r(t-td)))={never}")
    want, crit = ref.rgw(S, K, t, td, r, D, s)
    v = num(sut("call()", o.call))
    if want is None:
        rec.label("critical price out of reach")
        return
    Sx = S - D * math.exp(-r * td)
    N = S + K
    tol = TOL * N
    close(v, want, tol, f"call (critical price {crit})")
    euro = float(ref.gbs(Sx, K, t, r, r, s, True))
    held = float(ref.gbs(S, K, td, r, r, s, True))  # exercise at td, just before the dividend
    ensure(v >= euro - tol, f"American call {v} below the European {euro}")
    ensure(v <= S + tol, f"American call {v} above the stock {S}")
    rec.label("never optimal" if crit is None else "optimal" if want > euro + 10 * tol else "barely optimal")
    rec.nt(crit is not None and want > euro + 10 * tol)


TOL = 2e-6  # published 5-point bivariate normal and polynomial N(x): about 2e-7 was seen


SUBS = [Sub("price", models.rgw_params(), run, 4000, rule="an early-exercise premium above ten tolerances")]
