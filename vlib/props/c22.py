"""C22 Monte Carlo prices estimate the contract's value."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy.special import ndtr

from finoptions import monte_carlo_options as mc
import finoptions as fo
from vlib import gen, ref
from vlib.core import Sub, arr, close, ensure, sut

RULE = (
    "A case is a contract and an engine configuration with scrambled Sobol innovations.  The mean over "
    "the loops must lie within two and a half plain Monte Carlo standard errors of the value (the quasi-random "
    "errors stay below half of one)."
)


@st.composite
def cases(draw, steps=16):
    S = draw(gen.pos(1.0, 500.0, (100.0,)))
    t = draw(gen.pos(0.05, 3.0, (1.0, 1 / 12)))
    v = draw(gen.real(0.05, 0.6, (0.2,)))
    s = gen.sig(v / math.sqrt(t))
    r = draw(gen.real(-0.03, 0.2, (0.05, 0.0)))
    b = draw(gen.carry(r, -0.1, 0.2))
    K = gen.sig(S * math.exp(b * t + v * draw(gen.real(-1.5, 1.5, (0.0,)))))
    return {"S": S, "K": K, "t": t, "r": r, "b": b, "sigma": s, "loops": draw(st.integers(1, 4)), "paths": 2 ** draw(st.integers(10, 12)),
            "steps": draw(st.integers(1, steps)), "antithetic": draw(st.booleans()), "standardization": draw(st.booleans()), "put": draw(st.booleans())}


def estimate(c, payoff):
    o = sut("MonteCarloOption(...)", mc.MonteCarloOption, c["loops"], c["steps"], c["paths"], c["S"], c["K"], c["t"], c["r"], c["b"], c["sigma"],
            mc.NormalSobolInnovations, mc.WienerPath, payoff, antithetic=c["antithetic"], standardization=c["standardization"])
    v = arr(sut("put()" if c["put"] else "call()", o.put if c["put"] else o.call), (c["loops"],), "loop means")
    return v


def second_moment(c):
    """E[payoff^2] of the discounted vanilla payoff."""
    F = c["S"] * math.exp(c["b"] * c["t"])
    v = c["sigma"] * math.sqrt(c["t"])
    K = c["K"]
    d2 = (math.log(F / K) - v * v / 2) / v
    z = -1 if c["put"] else 1
    m = F * F * math.exp(v * v) * ndtr(z * (d2 + 2 * v)) - 2 * K * F * ndtr(z * (d2 + v)) + K * K * ndtr(z * d2)
    return math.exp(-2 * c["r"] * c["t"]) * max(float(m), 0.0)


def vanilla(c, rec):
    loops = estimate(c, mc.PlainVanillaPayoff)
    v = float(np.mean(loops))
    a = (c["S"], c["K"], c["t"], c["r"], c["b"], c["sigma"])
    want = float(ref.gbs(*a, not c["put"]))
    own = sut("GBSOption", fo.GBSOption, *a)
    close(sut("GBSOption price", own.put if c["put"] else own.call), want, 1e-6 * (c["S"] + c["K"]), "closed form")
    sd = math.sqrt(max(second_moment(c) - want**2, 0.0))
    se = sd / math.sqrt(c["loops"] * c["paths"])
    close(v, want, 2.5 * se + 1e-3 * want * c["standardization"], f"Monte Carlo {'put' if c['put'] else 'call'} with {c['loops']} x {c['paths']} paths of {c['steps']} steps")
    rec.label("antithetic" if c["antithetic"] else "plain", f"steps {'1' if c['steps'] == 1 else '>1'}")
    if want > 10 * se and c["loops"] > 1:
        ensure(np.ptp(loops) > 0, f"independent loops gave the same mean {loops}")
    rec.nt(c["steps"] > 1 and want > 10 * se)


def asian_reference(c, n=20000):
    """Arithmetic average with the geometric average as control variate."""
    m = c["steps"]
    dt = c["t"] / m
    z = np.random.RandomState(12345).normal(size=(n // 2, m))
    z = np.concatenate((z, -z))
    x = np.cumsum((c["b"] - c["sigma"] ** 2 / 2) * dt + c["sigma"] * math.sqrt(dt) * z, axis=1)
    A = c["S"] * np.exp(x).mean(axis=1)
    G = c["S"] * np.exp(x.mean(axis=1))
    sg = -1.0 if c["put"] else 1.0
    pa, pg = np.maximum(sg * (A - c["K"]), 0), np.maximum(sg * (G - c["K"]), 0)
    w = np.arange(m, 0, -1) / m
    mu = math.log(c["S"]) + (c["b"] - c["sigma"] ** 2 / 2) * dt * w.sum()
    v = c["sigma"] * math.sqrt(dt * float(np.sum(w * w)))
    F = math.exp(mu + v * v / 2)
    d1 = (math.log(F / c["K"]) + v * v / 2) / v
    exact = sg * (F * float(ndtr(sg * d1)) - c["K"] * float(ndtr(sg * (d1 - v))))
    df = math.exp(-c["r"] * c["t"])
    pairs = (pa - pg).reshape(2, -1).mean(axis=0)
    return df * (exact + pairs.mean()), df * pairs.std() / math.sqrt(len(pairs)), df * pa.std()


def asian(c, rec):
    loops = estimate(c, mc.ArithmeticAsianPayoff)
    v = float(np.mean(loops))
    want, err, sd = asian_reference(c)
    se = sd / math.sqrt(c["loops"] * c["paths"])
    close(v, want, 2.5 * se + 6 * err + 1e-3 * want * c["standardization"], f"Monte Carlo Asian {'put' if c['put'] else 'call'} with {c['loops']} x {c['paths']} paths of {c['steps']} steps")
    rec.label("antithetic" if c["antithetic"] else "plain", f"steps {'1' if c['steps'] == 1 else '>1'}")
    if want > 10 * se and c["loops"] > 1:
        ensure(np.ptp(loops) > 0, f"independent loops gave the same mean {loops}")
    rec.nt(c["steps"] > 1 and want > 10 * se)


SUBS = [
    Sub("vanilla", cases(), vanilla, 900, rule="several steps and a value above ten standard errors"),
    Sub("asian", cases(12), asian, 400, rule="several steps and a value above ten standard errors"),
]
