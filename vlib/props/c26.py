"""C26 reports state the option's parameters and prices."""
import contextlib
import io
import math
import re

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Reject, Sub, close, ensure, fail, getkey, num, outcome, sut

RULE = "A case is a class and a contract (parts: scalars; arrays of contracts; contracts without volatility)."
NAMES = ("GBS", "BS", "B76", "MS", "RGW", "BAW", "BS93", "CRR", "JR", "TIAN", "TRI", "SALL", "SMAX", "SMIN", "SSPR", "SAPX")
NUMBER = r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|inf|nan)"
# words a title must contain to tell the models apart
TITLE = {
    "GBS": ("Black", "Scholes"), "BS": ("Black", "Scholes"), "B76": ("Black",), "MS": ("Miltersen",), "RGW": ("Geske",), "BAW": ("Barone",),
    "BS93": ("Bjerksund",), "CRR": ("CRR",), "JR": ("JR",), "TIAN": ("TIAN",), "TRI": ("Trinomial",), "SALL": ("Rubinstein",),
    "SMAX": ("Maximum",), "SMIN": ("Minimum",), "SSPR": ("Spread",), "SAPX": ("Approximation",),
}


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    p = draw(models.params(name, nmax=8))
    return {"cls": name, "p": p, "as": draw(gen.CASTS), "set": draw(st.booleans())}


def printed(o):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = sut("summary()", o.summary)
    ensure(r is None, f"summary() that prints returned {type(r).__name__}")
    return out.getvalue()


def text_of(o, name):
    t = sut("summary(printer=False)", o.summary, printer=False)
    if not isinstance(t, str):
        fail(f"summary(printer=False) returned {type(t).__name__}")
    out = printed(o)
    ensure(out.rstrip("\n") == t.rstrip("\n"), "summary() prints something else than summary(printer=False) returns")
    ensure(printed_nothing(o), "summary(printer=False) prints")
    ensure(sut("str()", str, o) == t, "str() of an option is not its summary")
    head = t.split("\n")[0]
    for w in TITLE[name]:
        ensure(w in head, f"the report of {name} is headed {head!r}")
    return t


def printed_nothing(o):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        o.summary(printer=False)
    return out.getvalue() == ""


def fields(t, what):
    """name -> text of every 'name = value' line, in order."""
    body = re.split(r"\n\s*Option Price", t)[0]
    parts = re.split(r"^\s*([A-Za-z_]\w*) = ", body, flags=re.M)
    names = parts[1::2]
    ensure(len(set(names)) == len(names), f"{what}: a parameter is listed twice: {names}")
    return dict(zip(names, (v.strip() for v in parts[2::2])))


def shown(s, v, what):
    if v is None:
        ensure(s == "None", f"{what}: {s!r}")
    elif isinstance(v, str):
        ensure(s.strip("'\"") == v, f"{what}: {s!r}, is {v!r}")
    else:
        try:
            x = float(s)
        except ValueError:
            fail(f"{what} is reported as {s!r}, is {v!r}")
        close(x, float(v), 1e-12 * abs(float(v)), what)


def run(c, rec):
    name = c["cls"]
    p = {k: (gen.cast(c["as"], v) if isinstance(v, float) else v) for k, v in c["p"].items()}
    o = models.build(name, p)
    if c["set"]:
        k = "FT" if "FT" in p else "S" if "S" in p else "S1"
        p[k] = gen.sig(p[k] * 1.01)
        sut("set_param", o.set_param, k, p[k])
    t = text_of(o, name)
    f = fields(t, name)
    params = sut("get_params()", o.get_params)
    ensure(list(f) == list(params), f"{name} reports the parameters {list(f)}, has {list(params)}")
    for k, v in p.items():
        shown(getkey(f, k, "report"), v, f"{name} report of {k}")
    for k, v in params.items():
        shown(f[k], v, f"{name} report of {k}")
    kind = p.get("type") or (p.get("otype") if name != "SAPX" else None)
    if name == "SAPX":
        kind = None
    nt = True
    for call in (True, False):
        if not call and not models.has_put(name):
            ensure("put" not in t.lower().replace("input", ""), f"{name} reports a put")
            continue
        w = "call" if call else "put"
        m = re.findall(rf"^\s*{w}(?:-(\w+))?: ({NUMBER})(.*)$", t, flags=re.M)
        ensure(len(m) == 1, f"{name} report has {len(m)} {w} prices: {t!r:.600}")
        label, val, rest = m[0]
        x = models.price(name, o, call)
        close(float(val), x, 0.5000001e-6 + 1e-12 * abs(x), f"{name} report of the {w} price")
        if kind is not None:
            ensure(label == kind, f"{name} report labels a {kind} {w} {label!r}")
        if name == "BS93":
            trig = num(getkey(sut("price", o.call if call else o.put), "TriggerPrice", "price"))
            g = re.findall(rf"trigger: ({NUMBER})", rest)
            ensure(len(g) == 1, f"BS93 report has {len(g)} trigger prices for the {w}")
            if math.isnan(trig):
                ensure(g[0] == "nan", f"BS93 report of no trigger: {g[0]}")
            else:
                close(float(g[0]), trig, 0.5000001e-6 + 1e-12 * trig, f"BS93 report of the {w} trigger")
        nt = nt and x > 1e-3
    if name == "RGW":
        m = re.findall(r"Optimal to Exercise Call Option: (True|False)", t)
        ensure(m == [str(bool(sut("is_call_optimal()", o.is_call_optimal)))], f"RGW report: exercise optimal {m}")
    r = sut("repr()", repr, o)
    m = re.fullmatch(r"(\w+)\((.*)\)", r, flags=re.S)
    cls = models.CLASSES[name][0].__name__
    if m is None:
        fail(f"repr() of {name} is {r!r:.300}")
    if name != "SALL":
        ensure(m.group(1) == cls, f"repr() of a {cls} starts with {m.group(1)}")
    parts = [s.strip() for s in m.group(2).split(",")]
    ensure(len(parts) == len(params), f"repr() of {name} lists {len(parts)} of {len(params)} parameters: {r}")
    for s, (k, v) in zip(parts, params.items()):
        shown(s, v, f"repr() of {name}, {k}")
    rec.label(name, *(["after set_param"] if c["set"] else []))
    rec.nt(nt)


@st.composite
def array_cases(draw):
    name = draw(st.sampled_from(["GBS", "BS", "B76", "MS"]))
    p = draw(models.params(name))
    n = draw(gen.size(2, 14, 150, 10))
    keys = [k for k in ("S", "FT", "K", "t", "sigma", "sigmaS") if k in p and not (name == "MS" and k == "t")]
    which = draw(st.sets(st.sampled_from(keys), min_size=1))
    f = {k: [gen.sig(p[k] * math.exp(draw(gen.real(-0.2, 0.2)))) for _ in range(n)] for k in sorted(which)}
    return {"cls": name, "p": p, "arrays": f, "n": n}


def listed(s, v, places, what):
    """An array of up to six entries in full, a longer one by its ends."""
    xs = [float(x) for x in re.findall(NUMBER, s)]
    n = len(v)
    if n > 6:
        ensure("..." in s, f"{what}: {n} values are not abbreviated: {s!r:.200}")
        v = np.concatenate((v[:3], v[-3:]))
    ensure(len(xs) == len(v), f"{what}: {len(xs)} of {n} values in {s!r:.200}")
    # numpy writes an array to eight digits, at most eight of them decimals
    tol = (0.5000001e-2 if n > 6 or places else 0.5000001e-8) + 1e-7 * np.max(np.abs(v))
    close(xs, v, tol, what)


def arrays(c, rec):
    name, n = c["cls"], c["n"]
    p = dict(c["p"])
    p.update({k: np.array(v) for k, v in c["arrays"].items()})
    o = models.build(name, p)
    t = text_of(o, name)
    f = fields(t, name)
    for k, v in p.items():
        s = getkey(f, k, "report")
        if isinstance(v, np.ndarray):
            listed(s, v, False, f"{name} report of {k}")
        else:
            shown(s, v, f"{name} report of {k}")
    m = re.search(r"^\s*call: (.*?)^\s*put: (.*)\Z", t, flags=re.S | re.M)
    if m is None:
        fail(f"{name} report of arrays has no prices: {t!r:.600}")
    for s, fn, w in ((m.group(1), o.call, "call"), (m.group(2), o.put, "put")):
        listed(s, np.asarray(sut(w, fn), dtype=float), True, f"{name} report of the {w} prices")
    r = sut("repr()", repr, o)
    ensure(r.startswith(models.CLASSES[name][0].__name__ + "("), f"repr() {r!r:.100}")
    rec.label(name, "abbreviated" if n > 6 else "in full")
    rec.nt(n > 2)


@st.composite
def bare_cases(draw):
    name = draw(st.sampled_from(["GBS", "BS", "B76", "RGW", "BAW", "BS93"]))
    return {"cls": name, "p": draw(models.params(name))}


def bare(c, rec):
    """Without its volatility an option still reports its parameters, and no price."""
    name = c["cls"]
    p = dict(c["p"])
    s = p.pop("sigma")
    o = models.build(name, p)
    t = text_of(o, name)
    f = fields(t, name)
    for k, v in dict(p, sigma=None).items():
        shown(getkey(f, k, "report").split("\n")[0], v, f"{name} report of {k} without volatility")
    ensure(not re.search(r"^\s*(call|put)(-\w+)?:", t, flags=re.M), f"{name} without a volatility reports a price: {t!r:.500}")
    sut("set_param", o.set_param, "sigma", s)
    t = text_of(o, name)
    m = re.findall(rf"^\s*call: ({NUMBER})", t, flags=re.M)
    ensure(len(m) == 1, f"{name} report has no price once the volatility is set")
    x = models.price(name, o, True)
    close(float(m[0]), x, 0.5000001e-6 + 1e-12 * abs(x), f"{name} report of the call price")
    rec.label(name)
    rec.nt(x > 1e-3)


SUBS = [
    Sub("scalars", cases(), run, 3000, rule="prices above 0.001"),
    Sub("arrays", array_cases(), arrays, 800, rule="three or more contracts"),
    Sub("without volatility", bare_cases(), bare, 500, rule="a price above 0.001 once the volatility is set"),
]
