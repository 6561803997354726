"""C20 Monte Carlo engine."""
import contextlib
import io
import math
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from finoptions import monte_carlo_options as mc
from vlib import gen
from vlib.core import Sub, arr, close, ensure, fail, num, outcome, sut

RULE = (
    "A case is an engine configuration (loops, paths, steps, antithetic, standardization, trace), a "
    "contract, and scripted user-defined Innovation, Path and Payoff classes whose values for each "
    "loop are known."
)


def sizes():
    """Small, or large in one direction."""
    one = st.integers(1, 5), st.integers(1, 6), st.integers(1, 6)
    big = gen.size(5, 20, 80, 2), gen.size(6, 40, 500, 2), gen.size(6, 40, 500, 2)
    pick = [one, one, one, one, (big[0], st.integers(1, 3), st.integers(1, 3)), (one[0], big[1], st.integers(1, 4)), (st.integers(1, 3), one[1], big[2])]
    return st.one_of(*[st.tuples(*t).map(lambda v: dict(zip(("loops", "paths", "steps"), v))) for t in pick])


@st.composite
def cases(draw):
    S = draw(gen.mostly(gen.pos(1.0, 500.0, (100.0,)), gen.pos(1e-6, 1e8)))
    return {
        **draw(sizes()),
        "S": S, "K": gen.sig(S * math.exp(draw(gen.real(-0.6, 0.6, (0.0,))))),
        "t": draw(gen.pos(0.02, 4.0, (1.0, 1 / 12))), "r": draw(gen.real(-0.03, 0.2, (0.0, 0.05))),
        "b": draw(gen.real(-0.1, 0.2, (0.0, 0.05))), "sigma": draw(gen.pos(0.05, 1.0, (0.2, 0.4))),
        "path": draw(st.sampled_from(["wiener", "custom"])), "payoff": draw(st.sampled_from(["vanilla", "asian", "custom"])),
        "antithetic": draw(st.booleans()), "standardization": draw(st.booleans()), "trace": draw(st.booleans()),
        "seed": draw(st.integers(0, 2**31 - 1)), "eps": draw(st.integers(0, 5)) == 2, "kw": draw(st.booleans()),
        "put": draw(st.booleans()), "defaults": draw(st.booleans()),
    }


def scripted(c):
    """A fresh Innovation class: the k-th sample it ever draws is known."""
    count = [0]

    class Scripted(mc.Innovations):
        def sample_innovation(self, *a, **k):
            if self._eps is not None:
                return self._eps
            x = draw_k(c, count[0], self.mc_paths, self.path_length)
            count[0] += 1
            return x

    return Scripted


def draw_k(c, k, paths, steps):
    return np.random.RandomState((c["seed"] + 7919 * k) % 2**32).normal(0.3, 1.2, (paths, steps))


class CustomPath(mc.Path):
    """Shocks that depend on all four constructor arguments."""

    def generate_path(self):
        e = np.asarray(self.epsilon)
        return self.b * self.dt + self.sigma * math.sqrt(self.dt) * e / (1 + 0.1 * e * e)


class CustomPayoff(mc.Payoff):
    """Lookback with a rebate that depends on every constructor argument."""

    def _m(self):
        x = self.S * np.exp(np.cumsum(self.path.generate_path(), axis=1))
        return x.max(axis=1), x.min(axis=1), np.exp(-self.r * self.t) * (1 + self.b) * (1 + self.sigma)

    def call(self):
        hi, _, f = self._m()
        return f * np.maximum(hi - self.K, 0.01)

    def put(self):
        _, lo, f = self._m()
        return f * np.maximum(self.K - lo, 0.02)


PATHS = {"wiener": mc.WienerPath, "custom": CustomPath}
PAYOFFS = {"vanilla": mc.PlainVanillaPayoff, "asian": mc.ArithmeticAsianPayoff, "custom": CustomPayoff}


def expected(c, e, call):
    """Mean payoff for one sample of innovations, with plain loops."""
    e = np.array(e)
    if c["antithetic"]:
        e = np.vstack([e, -e])
    if c["standardization"]:
        n = e.size
        m = math.fsum(e.ravel()) / n
        s = math.sqrt(math.fsum(((e - m) ** 2).ravel()) / n)
        e = (e - m) / s
    dt = c["t"] / c["steps"]
    b, s = c["b"], c["sigma"]
    if c["path"] == "wiener":
        x = (b - s * s / 2) * dt + s * math.sqrt(dt) * e
    else:
        x = CustomPath(e, s, dt, b).generate_path()
    df = math.exp(-c["r"] * c["t"])
    tot = []
    for row in x:
        lv, path = 0.0, []
        for v in row:
            lv += v
            path.append(c["S"] * math.exp(lv))
        if c["payoff"] == "vanilla":
            v = path[-1]
        elif c["payoff"] == "asian":
            v = math.fsum(path) / len(path)
        if c["payoff"] == "custom":
            f = df * (1 + b) * (1 + s)
            tot.append(f * (max(max(path) - c["K"], 0.01) if call else max(c["K"] - min(path), 0.02)))
        else:
            tot.append(df * max(v - c["K"] if call else c["K"] - v, 0.0))
    return math.fsum(tot) / len(tot)


def make(c, innovation, payoff=None, eps=None):
    a = [c["loops"], c["steps"], c["paths"], c["S"], c["K"], c["t"], c["r"], c["b"], c["sigma"], innovation, PATHS[c["path"]], payoff or PAYOFFS[c["payoff"]]]
    kw = {k: c[k] for k in ("trace", "antithetic", "standardization") if c[k] or not c["defaults"]}
    if eps is not None:
        kw["eps"] = eps
    if c["kw"]:
        names = ("mc_loops", "path_length", "mc_paths", "S", "K", "t", "r", "b", "sigma", "Innovation", "Path", "Payoff")
        kw.update(zip(names, a))
        a = []
    return sut("MonteCarloOption(...)", mc.MonteCarloOption, *a, **kw)


def degenerate(c):
    return c["standardization"] and c["paths"] * c["steps"] == 1 and not c["antithetic"]


TRACE = re.compile(r"Loop:\s*(\d+)\s*:\s*(\S+)\s+(\S+)")


def priced(c, o, call, what):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        v = sut(what, o.call if call else o.put)
    v = arr(v, (c["loops"],), what)
    if c["trace"]:
        got = TRACE.findall(out.getvalue())
        ensure(len(got) == c["loops"], f"trace of {c['loops']} loops has {len(got)} lines: {out.getvalue()!r:.300}")
        for i, (no, a, b) in enumerate(got):
            tol = 1e-6 * (1e-300 + np.max(np.abs(v)))
            ensure(int(no) == i, f"trace line {i} is numbered {no}")
            close(float(a), v[i], tol, f"trace of loop {i}: value")
            close(float(b), v[: i + 1].mean(), tol, f"trace of loop {i}: average so far")
    else:
        ensure(out.getvalue() == "", f"{what} without trace prints {out.getvalue()!r:.200}")
    return v


def run(c, rec):
    if degenerate(c):
        c = dict(c, standardization=False)
    L = c["loops"]
    eps = draw_k(c, 0, c["paths"], c["steps"]) if c["eps"] else None
    keep = None if eps is None else eps.copy()
    o = make(c, scripted(c), eps=eps)
    calls = [not c["put"], c["put"], not c["put"]]
    for k, call in enumerate(calls):
        v = priced(c, o, call, "call()" if call else "put()")
        for i in range(L):
            e = eps if eps is not None else draw_k(c, k * L + i, c["paths"], c["steps"])
            w = expected(c, keep if eps is not None else e, call)
            close(v[i], w, 1e-9 * (c["S"] + c["K"] + abs(w)), f"{'call' if call else 'put'} no. {k + 1}, loop {i}: mean payoff")
        rec.nt(L > 1 and c["paths"] > 1 and c["steps"] > 1 and np.ptp(v) > 0 or (eps is not None and v[0] > 0))
    if eps is not None and not np.array_equal(eps, keep):
        fail("the innovations passed as eps were changed")
    rec.label(c["payoff"], c["path"], *[k for k in ("antithetic", "standardization", "trace", "eps") if c[k]])


@st.composite
def inf_cases(draw):
    c = draw(cases())
    c["eps"] = False
    c["where"] = draw(st.integers(0, c["loops"] - 1))
    return c


def infinite(c, rec):
    """A loop whose mean is infinite: warned about, and handed over for inspection."""
    if degenerate(c):
        c = dict(c, standardization=False)
    count = [0]
    base = PAYOFFS[c["payoff"]]

    def mark(x):
        if count[0] == c["where"]:
            x = np.array(x)
            x[-1] = np.inf
        count[0] += 1
        return x

    class Payoff(base):
        def call(self):
            return mark(super().call())

        def put(self):
            return mark(super().put())

    o = make(c, scripted(c), payoff=Payoff)

    def go():
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            with contextlib.redirect_stdout(io.StringIO()):
                v = (o.put if c["put"] else o.call)()
            return v, [str(x.message) for x in w if issubclass(x.category, UserWarning)]

    v, ws = sut("call() or put()", go)
    ensure(any("Inf" in m for m in ws), f"an infinite loop mean gives no warning ({ws})")
    ensure(isinstance(v, tuple) and len(v) == 3, f"expected (innovations, path, payoffs) of the infinite loop, got {v!r:.200}")
    e = draw_k(c, c["where"], c["paths"], c["steps"])
    if c["antithetic"]:
        e = np.vstack([e, -e])
    if c["standardization"]:
        e = (e - e.mean()) / e.std()
    close(v[0], e, 1e-9 * (1 + np.abs(e)), "innovations of the infinite loop")
    close(sut("generate_path()", v[1].generate_path), PATHS[c["path"]](e, c["sigma"], c["t"] / c["steps"], c["b"]).generate_path(), 1e-9, "path of the infinite loop")
    p = arr(v[2], (len(e),), "payoffs of the infinite loop")
    ensure(p[-1] == np.inf and np.all(np.isfinite(p[:-1])), "payoffs of the infinite loop are not those of the payoff class")
    rec.label("put" if c["put"] else "call")
    rec.nt(c["where"] > 0)


SUBS = [
    Sub("engine", cases(), run, 2500, rule="several loops, paths and steps with loop means that differ, or given innovations"),
    Sub("infinite", inf_cases(), infinite, 500, rule="the infinite loop is not the first"),
]
