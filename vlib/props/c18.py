"""C18 Heston-Nandi GARCH simulation."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from finoptions import heston_nandi_options as hn
from vlib import gen, models, ref
from vlib.core import Sub, arr, close, ensure, fail, sut

RULE = "A case is a stationary Heston-Nandi parameter set and the innovations of one simulated series."
DEFAULT = {"lamb": -0.5, "beta": 0.1, "gamma": 0.0, "rf": 0.0}
PAR = ("lamb", "omega", "alpha", "beta", "gamma")


@st.composite
def params(draw):
    p = draw(models.hn_params(tmax=2))
    q = {k: p[k] for k in PAR}
    # hn_params is stationary under the pricing law; the series lives under the physical one
    if q["beta"] + q["alpha"] * q["gamma"] ** 2 >= 0.98:
        q["alpha"] = gen.sig(0.9 * (1 - q["beta"]) / max(1.0, q["gamma"] ** 2) * 0.9)
    q["rf"] = draw(gen.real(-0.001, 0.002, (0.0, 0.0004)))
    if draw(st.integers(0, 3)) == 0:
        q["lamb"] = DEFAULT["lamb"]
    if draw(st.integers(0, 3)) == 0 and DEFAULT["beta"] + q["alpha"] * q["gamma"] ** 2 < 0.98:
        q["beta"] = DEFAULT["beta"]
    return q


normals = gen.real(-4.0, 4.0, (0.0, 1.0, -1.0))


@st.composite
def given_cases(draw):
    q = draw(params())
    start = draw(st.lists(normals, min_size=0, max_size=8))
    inno = draw(st.lists(normals, min_size=1, max_size=25))
    c = {"p": q, "inno": inno, "start": start, "pos": draw(st.booleans())}
    if draw(st.integers(0, 7)) == 0:
        # long series and long starts: their innovations come from a seed
        c["long"] = [draw(st.integers(0, 400)), draw(st.integers(1, 700)), draw(st.integers(0, 10**6))]
    return c


def sim(c, n, n_start, inno=None, inno_start=None):
    p = c["p"]
    if c.get("pos"):
        args = [p[k] for k in PAR] + [p["rf"], n, n_start, inno, inno_start]
        return sut("hngarch_sim(...)", hn.hngarch_sim, *args)
    # arguments that equal their documented defaults are left out
    kw = {k: p[k] for k in PAR + ("rf",) if p[k] != DEFAULT.get(k)}
    if n_start:
        kw.update(n_start=n_start)
    if inno is not None:
        kw["inno"] = inno
    if inno_start is not None:
        kw["inno_start"] = inno_start
    if n != 500:
        kw["n"] = n
    return sut("hngarch_sim(...)", hn.hngarch_sim, **kw)


def run(c, rec):
    p = c["p"]
    z = np.array(c["inno"])
    s = np.array(c["start"])
    if "long" in c:
        a, b, seed = c["long"]
        g = np.random.RandomState(seed)
        s, z = np.concatenate((s, g.normal(size=a))), np.concatenate((z, g.normal(size=b)))
    n = len(z)
    keep, keep_s = z.copy(), s.copy()
    want = ref.hn_path(np.concatenate((s, z)), **p)[len(s):]
    x = arr(sim(c, n, len(s), z, s if len(s) else None), (n,), "series")
    sd = math.sqrt((p["omega"] + p["alpha"]) / (1 - p["beta"] - p["alpha"] * p["gamma"] ** 2))
    close(x, want, 1e-10 * (sd + abs(p["rf"])) + 1e-9 * np.abs(want), f"series of {n} after {len(s)} start innovations")
    if not (np.array_equal(z, keep) and np.array_equal(s, keep_s)):
        fail("the innovations passed in were changed")
    if np.shares_memory(x, z) or np.shares_memory(x, s):
        fail("the series shares memory with the innovations")
    again = arr(sim(c, n, len(s), z, s if len(s) else None), (n,), "series")
    ensure(np.array_equal(again, x), "the same innovations gave another series")
    rec.label("start" if len(s) else "no start", "gamma" if p["gamma"] else "symmetric")
    rec.nt(n + len(s) > 3 and p["alpha"] > 0 and n > 1)


@st.composite
def random_cases(draw):
    q = draw(params())
    n = draw(st.sampled_from([500, 500, 1000, 1500, 2500, 6000]))
    mode = draw(st.sampled_from(["plain", "start", "start", "mixed", "first"]))
    return {"p": q, "n": n, "mode": mode, "n_start": draw(st.integers(1, 300)), "seed": draw(st.integers(0, 2**31 - 1))}


def normal(z, what):
    """z is a sample of independent standard normals (false alarm below 1e-11)."""
    n = len(z)
    ensure(np.all(np.isfinite(z)), f"{what}: not finite")
    m, v = z.mean(), z.var()
    c1 = np.mean((z[1:] - m) * (z[:-1] - m)) / v
    ks = stats.kstest(z, "norm").statistic
    for name, q, lim in (("mean", m, 8 / math.sqrt(n)), ("variance - 1", v - 1, 8 * math.sqrt(2 / n) + 64 / n), ("autocorrelation", c1, 8 / math.sqrt(n)), ("Kolmogorov-Smirnov distance", ks, 3.6 / math.sqrt(n))):
        ensure(abs(q) <= lim, f"{what}: {name} {q:.4f} of {n} values beyond {lim:.4f}")


def rnd(c, rec):
    p, n = dict(c["p"]), c["n"]
    np.random.seed(c["seed"])
    if c["mode"] == "plain":
        x = arr(sim({"p": p}, n, 0), (n,), "series")
        _, h, z = ref.hn_nll(x, **p)
        normal(z, "innovations recovered from a random series")
        y = arr(sim({"p": p}, n, 0), (n,), "series")
        ensure(not np.array_equal(x, y), "two random series are identical")
    elif c["mode"] == "start":
        # constant variance: the innovations of the kept part can be read off
        p["alpha"] = 0.0
        h = p["omega"] / (1 - p["beta"])
        x = arr(sim({"p": p}, n, c["n_start"]), (n,), "series")
        normal((x - p["rf"] - p["lamb"] * h) / math.sqrt(h), "innovations after a random start")
    elif c["mode"] == "first":
        # one random start innovation z: the first variance tells (z - gamma sqrt(h))^2
        p["lamb"] = 0.0
        h0 = (p["omega"] + p["alpha"]) / (1 - p["beta"] - p["alpha"] * p["gamma"] ** 2)
        if p["alpha"] < 1e-6 * h0:
            p["alpha"] = 0.05 * h0
            p["gamma"] = 0.0
            h0 = (p["omega"] + p["alpha"]) / (1 - p["beta"])
        one = np.array([1.0])
        x = np.array([float(arr(sim({"p": p}, 1, 1, one), (1,), "series")[0]) for _ in range(600)])
        u = ((x - p["rf"]) ** 2 - p["omega"] - p["beta"] * h0) / p["alpha"]
        ensure(np.all(u > -1e-6), "variance after one random start innovation is too small")
        g = p["gamma"] * math.sqrt(h0)
        w = np.sqrt(np.maximum(u, 0.0))
        # (z - g)^2 <= w^2  iff  g - w <= z <= g + w
        ks = stats.kstest(stats.norm.cdf(g + w) - stats.norm.cdf(g - w), "uniform").statistic
        ensure(ks <= 3.6 / math.sqrt(600), f"random start innovations are not standard normal: Kolmogorov-Smirnov distance {ks:.3f}")
        ensure(len(set(x)) > 500, "random start innovations repeat")
    else:
        # random start, given innovations: variances after the start follow the recursion
        p["lamb"] = 0.0
        z = np.random.RandomState(c["seed"]).uniform(0.2, 1.5, 30)
        z[::2] *= -1
        x = arr(sim({"p": p}, 30, c["n_start"], z), (30,), "series")
        sq = (x - p["rf"]) / z
        h = sq * sq
        ensure(np.all(sq > 0), "the series does not follow the signs of its innovations")
        want = p["omega"] + p["beta"] * h[:-1] + p["alpha"] * (z[:-1] - p["gamma"] * sq[:-1]) ** 2
        close(h[1:], want, 1e-7 * want, "variance recursion after a random start")
        ensure(h[0] >= p["omega"] * (1 - 1e-9), "variance below omega")
    rec.label(c["mode"])
    rec.nt()


SUBS = [
    Sub("given", given_cases(), run, 4000, rule="two or more returned values, ARCH effect, more than three steps"),
    Sub("random", random_cases(), rnd, 600, rule="every case"),
]
