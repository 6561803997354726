"""C21 Monte Carlo building blocks: innovations, paths, payoffs."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.stats import qmc

from finoptions import monte_carlo_options as mc
from vlib import gen
from vlib.core import Sub, arr, close, ensure, fail, sut

RULE = "A case is a sample size and dimension, or a matrix of innovations and a contract."


@st.composite
def sobol_cases(draw):
    k = draw(gen.size(0, 8, 13))
    n = 2**k if draw(st.booleans()) else draw(gen.size(1, 300, 6000))
    return {"n": n, "d": draw(gen.size(1, 40, 400) if n < 600 else st.integers(1, 12)), "mode": draw(st.sampled_from(["default", "default", "scrambled", "plain", "plain", "eps"])),
            "kw": draw(st.booleans()), "seed": draw(st.integers(0, 2**31 - 1))}


def sobol(c, rec):
    n, d = c["n"], c["d"]
    eps = None
    if c["mode"] == "eps":
        eps = np.random.RandomState(c["seed"]).normal(size=(n, d))
    if c["kw"]:
        o = sut("NormalSobolInnovations(...)", mc.NormalSobolInnovations, mc_paths=n, path_length=d, eps=eps)
    else:
        o = sut("NormalSobolInnovations(...)", mc.NormalSobolInnovations, n, d, *([eps] if eps is not None else []))

    def sample():
        if c["mode"] == "default" or (c["mode"] == "eps" and c["seed"] % 3):
            return arr(sut("sample_innovation()", o.sample_innovation), (n, d), "innovations")
        return arr(sut("sample_innovation(scramble=...)", o.sample_innovation, scramble=c["mode"] == "scrambled"), (n, d), "innovations")

    x = sample()
    rec.label(c["mode"], "2^k" if n & (n - 1) == 0 else "other size")
    if eps is not None:
        ensure(np.array_equal(x, np.random.RandomState(c["seed"]).normal(size=(n, d))), "innovations differ from the given eps")
        rec.nt(n > 1)
        return
    ensure(np.all(np.isfinite(x)), "infinite innovation")
    u = stats.norm.cdf(x)
    if c["mode"] == "plain":
        # points 1 .. n of the sequence: 0.5 first, never the origin
        want = qmc.Sobol(d, scramble=False).random(2 ** max(1, math.ceil(math.log2(n + 1))))[1 : n + 1]
        close(u, want, 1e-7, "unscrambled innovations vs normal quantiles of Sobol points 1..n")
        ensure(np.array_equal(sample(), x), "unscrambled innovations differ between two draws")
    else:
        # an aligned run of 2^k scrambled Sobol points has one point in each interval of length 2^-k
        k = n.bit_length() - 1
        m = 2**k
        for part, size in ((u[:m], m), (u, 2 ** math.ceil(math.log2(n)) if n > 1 else 1)):
            cell = np.minimum((part * size).astype(int), size - 1)
            near = np.abs(part * size - np.round(part * size)) < 1e-6
            for j in range(d):
                free = cell[~near[:, j], j]
                ensure(len(np.unique(free)) == len(free), f"dimension {j}: {len(free) - len(np.unique(free))} of {len(part)} scrambled points share an interval of length 1/{size}")
        if n * d >= 8:
            y = sample()
            ensure(not np.array_equal(x, y), "two scrambled draws are identical")
    rec.nt(n >= 4 and d >= 2)


@st.composite
def zero_cases(draw):
    n = draw(st.integers(1, 40))
    d = draw(st.integers(1, 12))
    return {"n": n, "d": d, "zeros": draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, d - 1)), min_size=1, max_size=3)),
            "ones": draw(st.booleans()), "times": draw(st.integers(1, 3))}


def zeros(c, rec):
    """Injected fault: scipy's scrambled Sobol generator returns points with an exact 0 (which it
    does about once in 2^30 values) or 1 in its first few draws.  No innovation may be infinite."""
    orig = qmc.Sobol.random
    left = [c["times"]]

    def random(self, n=1, **k):
        u = orig(self, n, **k)
        if left[0] > 0 and u.shape == (c["n"], c["d"]):
            left[0] -= 1
            for i, j in c["zeros"]:
                u[i, j] = 0.0
            if c["ones"]:
                u[c["zeros"][0][0], c["zeros"][0][1]] = 1.0
        return u

    qmc.Sobol.random = random
    try:
        o = sut("NormalSobolInnovations(...)", mc.NormalSobolInnovations, c["n"], c["d"])
        x = arr(sut("sample_innovation()", o.sample_innovation), (c["n"], c["d"]), "innovations")
    finally:
        qmc.Sobol.random = orig
    ensure(np.all(np.isfinite(x)), f"infinite innovation when the generator returns an exact {'1' if c['ones'] else '0'}: {x[~np.isfinite(x)]}")
    rec.label("hit" if left[0] < c["times"] else "generator bypassed")
    rec.nt()


@st.composite
def path_cases(draw):
    S = draw(gen.mostly(gen.pos(0.5, 1000.0, (100.0,)), gen.pos(1e-6, 1e8)))
    return {"n": draw(gen.size(1, 12, 600)), "m": 1 if draw(st.integers(0, 9)) == 0 else draw(gen.size(1, 12, 600)), "seed": draw(st.integers(0, 2**31 - 1)),
            "S": S, "K": gen.sig(S * math.exp(draw(gen.mostly(gen.real(-0.8, 0.8, (0.0,)), gen.real(-6.0, 6.0))))), "t": draw(gen.mostly(gen.pos(0.02, 5.0, (1.0,)), gen.pos(1e-4, 50.0))),
            "r": draw(gen.real(-0.05, 0.25, (0.0, 0.05))), "b": draw(gen.real(-0.1, 0.25, (0.0, 0.05))), "sigma": draw(gen.mostly(gen.pos(0.02, 1.2, (0.2, 0.4)), gen.pos(1e-4, 3.0))),
            "kw": draw(st.booleans()), "dt": draw(gen.pos(1e-3, 1.0, (1 / 360, 1 / 252)))}


def paths(c, rec):
    e = np.random.RandomState(c["seed"]).normal(size=(c["n"], c["m"]))
    keep = e.copy()
    if c["kw"]:
        p = sut("WienerPath(...)", mc.WienerPath, epsilon=e, sigma=c["sigma"], dt=c["dt"], b=c["b"])
    else:
        p = sut("WienerPath(...)", mc.WienerPath, e, c["sigma"], c["dt"], c["b"])
    x = arr(sut("generate_path()", p.generate_path), e.shape, "path")
    want = np.array([[(c["b"] - c["sigma"] ** 2 / 2) * c["dt"] + c["sigma"] * math.sqrt(c["dt"]) * v for v in row] for row in keep])
    close(x, want, 1e-12 * (1 + np.abs(want)), "Wiener path increments")
    K, S = c["K"], c["S"]
    df = math.exp(-c["r"] * c["t"])
    end = [S * math.exp(math.fsum(row)) for row in want]
    avg = [math.fsum(S * math.exp(v) for v in itertools.accumulate(row)) / c["m"] for row in want]
    for name, cls, level in (("plain vanilla", mc.PlainVanillaPayoff, end), ("arithmetic Asian", mc.ArithmeticAsianPayoff, avg)):
        if c["kw"]:
            o = sut("payoff", cls, path=p, S=S, K=K, t=c["t"], r=c["r"], b=c["b"], sigma=c["sigma"])
        else:
            o = sut("payoff", cls, p, S, K, c["t"], c["r"], c["b"], c["sigma"])
        for call in (True, False):
            w = "call" if call else "put"
            got = arr(sut(w, o.call if call else o.put), (c["n"],), f"{name} {w}")
            pay = np.array([df * max(v - K if call else K - v, 0.0) for v in level])
            close(got, pay, 1e-10 * (K + np.array(level)), f"{name} {w} payoffs")
            rec.nt(c["n"] > 1 and c["m"] > 1 and np.any(pay > 0) and np.any(pay == 0))
    if not np.array_equal(e, keep):
        fail("the innovations were changed")
    again = arr(sut("generate_path()", p.generate_path), e.shape, "path")
    ensure(np.array_equal(again, x), "the same innovations gave another path")


SUBS = [
    Sub("innovations", sobol_cases(), sobol, 1500, rule="four or more paths and two or more steps"),
    Sub("zeros", zero_cases(), zeros, 400, rule="every case"),
    Sub("paths and payoffs", path_cases(), paths, 4000, rule="several paths and steps, payoffs that are positive and zero"),
]
