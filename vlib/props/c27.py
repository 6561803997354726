"""C27 what cannot be priced is refused, and a refusal leaves the option as it was."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Sub, close, ensure, fail, num, outcome, sut
from vlib.props import c23

RULE = "A case is a contract, a request that it cannot answer, and the repair that makes it answerable."
ANALYTICS = {
    "van": ("call", "put", "delta", "theta", "vega", "rho", "lamb", "gamma", "c_of_c", "greeks"),
    "RGW": ("call", "delta", "theta", "vega", "rho", "lamb", "gamma", "greeks"),
    "am": ("call", "put", "delta", "theta", "vega", "rho", "lamb", "gamma", "greeks"),
}


def analytics(name):
    return ANALYTICS["van" if name in models.VANILLA else "RGW" if name == "RGW" else "am"]


@st.composite
def bare_cases(draw):
    name = draw(st.sampled_from(["GBS", "BS", "B76", "RGW", "BAW", "BS93"]))
    p = draw(models.params(name))
    return {"cls": name, "p": p, "ask": draw(st.lists(st.sampled_from(analytics(name)), min_size=1, max_size=4)), "call": draw(st.booleans()),
            "fdm": draw(st.booleans()), "how": draw(st.sampled_from(["left out", "None", "set to None"]))}


def bare(c, rec):
    name = c["cls"]
    p = dict(c["p"])
    q = {k: v for k, v in p.items() if k != "sigma"}
    if c["how"] == "None":
        o = models.build(name, dict(q, sigma=None))
    elif c["how"] == "left out":
        o = models.build(name, q)
    else:
        o = models.build(name, p)
        sut("set_param('sigma', None)", o.set_param, "sigma", None)
    for a in c["ask"]:
        kw = {}
        if c["fdm"] and name in models.VANILLA and a not in ("call", "put", "c_of_c", "greeks"):
            kw["method"] = "fdm"
        if not c["call"] and name != "RGW" and a not in ("call", "put", "vega", "gamma"):
            kw["call"] = False
        kind, v = outcome(getattr(o, a), **kw)
        if kind == "ok":
            fail(f"{name} without a volatility answers {a}({kw}) with {v!r:.200}")
        if name in models.VANILLA and not kw.get("method"):
            ensure(isinstance(v, ValueError) and "sigma" in str(v), f"{name}.{a}() without a volatility raises {type(v).__name__}: {v}")
        rec.label(name, a)
    sut("set_param", o.set_param, "sigma", p["sigma"])
    fresh = models.build(name, p)
    for a in ("call",) + tuple(c["ask"][:1]):
        x, y = c23.ask(name, o, a), c23.ask(name, fresh, a)
        ensure(c23.same(x, y), lambda: f"{name}.{a}() after the volatility was set: {x[1]!r:.150}, a new option: {y[1]!r:.150}")
    rec.nt()


@st.composite
def array_cases(draw):
    name = draw(st.sampled_from(["RGW", "BAW", "BS93"]))
    p = draw(models.params(name))
    key = draw(st.sampled_from(sorted(p)))
    return {"cls": name, "p": p, "key": key, "n": draw(st.integers(2, 5)), "int": draw(st.booleans()), "two": draw(st.sampled_from(sorted(p))), "kw": draw(st.booleans()),
            "nd": draw(st.booleans())}


def arrays(c, rec):
    """The American models take one contract at a time."""
    name, p = c["cls"], dict(c["p"])
    a = np.full(c["n"], p[c["key"]])
    if c["int"]:
        a = np.maximum(1, np.round(a)).astype(int)
    if c["nd"]:
        a = a.reshape(1, -1)
    cls, order = models.CLASSES[name]
    q = dict(p, **{c["key"]: a})
    kind, v = outcome(cls, **q) if c["kw"] else outcome(cls, *[q[k] for k in order])
    if kind == "ok":
        fail(f"{name} accepts an array of {c['key']}")
    ensure(isinstance(v, TypeError), f"{name} with an array of {c['key']} raises {type(v).__name__}: {v}")
    o = models.build(name, p)
    before = outcome(o.call)
    kind, v = outcome(o.set_param, c["key"], a)
    if kind == "ok":
        fail(f"{name}.set_param accepts an array of {c['key']}")
    ensure(isinstance(v, TypeError), f"{name}.set_param with an array of {c['key']} raises {type(v).__name__}: {v}")
    c23.check_params(o, p, name, "after an array was refused")
    ensure(c23.same(outcome(o.call), before), f"{name}: the price changed when an array was refused")
    one = models.build(name, dict(p, **{c["key"]: np.array([p[c["key"]]])}))
    x, y = models.price(name, one), models.price(name, o)
    close(x, y, 1e-12 * abs(y) + 1e-15, f"{name} price with a one-element array of {c['key']}")
    rec.label(name, c["key"])
    rec.nt()


@st.composite
def lattice_array_cases(draw):
    name = draw(st.sampled_from(models.TREES + models.SPREADS + ("SAPX", "HN")))
    p = draw(models.params(name, nmax=5))
    if name == "HN":
        p["t"] = min(p["t"], 5)
    unused = {"K2"} if p.get("option") not in (4, 5) else set()
    if p.get("option") == 7:
        unused.add("K")
    key = draw(st.sampled_from(sorted(k for k, v in p.items() if isinstance(v, float) and k not in unused)))
    n = draw(st.sampled_from([2, 3, p.get("n", 3) + 1, 2 * p.get("n", 3) + 1]))
    return {"cls": name, "p": p, "key": key, "n": n, "call": draw(st.booleans()), "set": draw(st.booleans()), "step": draw(st.sampled_from([0.0, 0.01, -0.02]))}


def lattice_arrays(c, rec):
    """The other models refuse an array of contracts or price each of them: no wrong number comes back."""
    name, p, key = c["cls"], c["p"], c["key"]
    a = p[key] * (1 + c["step"] * np.arange(max(2, c["n"])))
    w = "call" if c["call"] else "put"

    def ask():
        if c["set"]:
            o = models.build(name, p)
            o.set_param(key, a)
        else:
            cls, order = models.CLASSES[name]
            o = cls(**{k: (a if k == key else p[k]) for k in order if k in p})
        return getattr(o, w)()

    kind, v = outcome(ask)
    rec.label(name, "refused" if kind != "ok" else "priced")
    rec.nt()
    if kind != "ok":
        return
    want = []
    for x in a:
        k1, y = outcome(lambda: models.price(name, models.build(name, dict(p, **{key: float(x)})), c["call"]))
        if k1 != "ok":
            return
        want.append(y)
    want = np.array(want)
    try:
        got = np.asarray(v, dtype=float)
    except (TypeError, ValueError):
        fail(f"{name} with an array of {key} has the {w} price {v!r:.200}")
    if got.size == 1 and np.isnan(got).all():
        return
    if got.shape != want.shape:
        fail(f"{name} with {len(a)} values of {key} answers {w}() with shape {got.shape}")
    close(got, want, 1e-9 * np.max(np.abs(want)) + 1e-12, f"{name} with an array of {key}, {w} prices contract by contract")


@st.composite
def misuse_cases(draw):
    what = draw(st.sampled_from(["rho", "name", "option", "type", "missing"]))
    name = draw(st.sampled_from({
        "rho": ["GBS", "BS"], "name": list(c23.NAMES), "option": ["SALL"], "type": list(models.TREES), "missing": ["SALL"],
    }[what]))
    p = draw(models.params(name, nmax=5))
    if what == "missing":
        p = draw(models.spread_params("SALL", nmax=4, options=(1, 2, 3, 4, 5, 6, 8, 9)))
        p["otype"] = "european"
    return {"what": what, "cls": name, "p": p, "bad": draw(st.sampled_from(["foo", "sigma_", "s", "k", "price", ""])), "opt": draw(st.sampled_from([0, 10, 11, -1, 99])),
            "value": draw(st.sampled_from([1.0, 0, None, "american", float("nan")])),
            "style": draw(st.sampled_from(["bermudan", "euro", "", "americano"])), "call": draw(st.booleans()), "array": draw(st.booleans())}


def misuse(c, rec):
    what, name, p = c["what"], c["cls"], dict(c["p"])
    o = models.build(name, p)
    rec.label(what, name)
    w = "call" if c["call"] else "put"
    if what == "rho":
        if p["b"] == 0:
            p["b"] = 0.01
        if c["array"]:
            p = dict(p, b=np.array([0.0, p["b"]]))
        o = models.build(name, p)
        kind, v = outcome(o.rho, call=c["call"], method="fdm")
        if kind == "ok":
            fail(f"finite-difference rho with cost of carry {p['b']} answers {v!r:.200}")
        ensure(isinstance(v, ValueError), f"finite-difference rho with cost of carry {p['b']} raises {type(v).__name__}: {v}")
        rec.nt()
        return
    if what == "name":
        before = outcome(o.call)
        kind, v = outcome(o.set_param, c["bad"], c.get("value", 1.0))
        if kind == "ok":
            fail(f"{name}.set_param accepts the parameter name {c['bad']!r}")
        c23.check_params(o, p, name, "after an unknown parameter was refused")
        ensure(c23.same(outcome(o.call), before), f"{name}: the price changed when an unknown parameter was refused")
        rec.nt()
        return
    if what == "option":
        p["option"] = c["opt"]
    elif what == "type":
        p["type"] = c["style"]
    else:
        # a payoff whose strike was not given
        del p["K"]
        if p["option"] in (4, 5) and c["array"]:
            p["K"] = c["p"]["K"]
            del p["K2"]
    cls, order = models.CLASSES[name]
    kind, v = outcome(lambda: getattr(cls(**{k: p[k] for k in order if k in p}), w)())
    if kind == "ok":
        try:
            x = float(np.asarray(v, dtype=float).reshape(-1)[0])
        except (TypeError, ValueError, IndexError):
            x = math.nan
        ensure(math.isnan(x), lambda: f"{name} with {what}: option={p.get('option')}, type={p.get('type')}, K={p.get('K')}, K2={p.get('K2')} has the {w} price {v!r:.200}")
    rec.nt()


SUBS = [
    Sub("without volatility", bare_cases(), bare, 1500, rule="every case"),
    Sub("arrays", array_cases(), arrays, 1200, rule="every case"),
    Sub("arrays elsewhere", lattice_array_cases(), lattice_arrays, 1200, rule="every case"),
    Sub("misuse", misuse_cases(), misuse, 2000, rule="every case"),
]
