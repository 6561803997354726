"""C23 parameter histories: an option always prices its current parameters."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Sub, ensure, fail, getkey, outcome, sut

RULE = (
    "A case is a class, a contract, and a history of set_param, copy, pricing, Greek, reporting and "
    "misuse operations on up to four live objects.  The model is a dict of parameters per object; "
    "after every query the object must answer like a new object built from its model."
)
NAMES = ("GBS", "BS", "B76", "MS", "RGW", "BAW", "BS93", "CRR", "JR", "TIAN", "TRI", "SALL", "SMAX", "SMIN", "SSPR", "SAPX")
QUERIES = {
    "default": ("call", "put", "delta", "vega", "gamma", "theta", "summary", "repr"),
    "van": ("call", "put", "delta", "vega", "gamma", "theta", "rho", "lamb", "c_of_c", "greeks", "fdm", "vol", "summary", "repr"),
    "RGW": ("call", "delta", "vega", "theta", "vol", "summary", "repr"),
    "tree": ("call", "put", "tree", "delta", "vega", "summary", "repr"),
}
# classes that take the same parameters
SIBLINGS = {k: g for g in (("GBS", "BS", "BAW", "BS93"), models.TREES, ("SMAX", "SMIN", "SSPR")) for k in g}


def queries(name):
    return QUERIES["van"] if name in models.VANILLA else QUERIES["tree"] if name in models.TREES else QUERIES.get(name, QUERIES["default"])


@st.composite
def cases(draw):
    name = draw(st.sampled_from(NAMES))
    nmax = 6
    p = draw(models.params(name, nmax=nmax))
    alt = [draw(models.params(name, nmax=nmax)) for _ in range(draw(st.integers(1, 2)))]
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        k = draw(st.sampled_from(["set", "set", "set", "query", "query", "query", "copy", "dirty", "bad", "params", "sibling"]))
        i = draw(st.integers(0, 3))
        if k == "set":
            a = draw(st.sampled_from(alt))
            key = draw(st.sampled_from(sorted(a)))
            ops.append([k, i, key, a[key]])
        elif k == "query":
            ops.append([k, i, draw(st.sampled_from(queries(name)))])
        elif k == "sibling":
            ops.append([k, i, draw(st.sampled_from(SIBLINGS.get(name, (name,)))), draw(st.sampled_from(["call", "put"] if models.has_put(name) else ["call"]))])
        else:
            ops.append([k, i])
    return {"cls": name, "p": p, "ops": ops, "alias": draw(st.booleans())}


def ask(name, o, q):
    """The answer of one object, as something comparable."""
    if q == "call":
        return outcome(o.call)
    if q == "put":
        return outcome(o.put)
    if q == "tree":
        return outcome(o.call, tree=True)
    if q == "fdm":
        return outcome(o.delta, method="fdm")
    if q == "vol":
        kind, v = outcome(o.call)
        if kind != "ok" or not np.all(np.isfinite(np.asarray(v, dtype=float))):
            return kind, v
        return outcome(o.volatility, v)
    if q == "summary":
        return outcome(o.summary, printer=False)
    if q == "repr":
        return outcome(repr, o)
    return outcome(getattr(o, q))


def flat(v):
    if isinstance(v, dict):
        return [x for k in sorted(v, key=str) for x in [k] + flat(v[k])]
    if isinstance(v, (list, tuple)):
        return [x for e in v for x in flat(e)]
    if isinstance(v, np.ndarray):
        return [v.shape] + [float(e) for e in v.reshape(-1)]
    if isinstance(v, (float, np.floating)):
        return [float(v)]
    return [v]


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "raise":
        return type(a[1]) is type(b[1])
    x, y = flat(a[1]), flat(b[1])
    if len(x) != len(y):
        return False
    for u, v in zip(x, y):
        if isinstance(u, float) and isinstance(v, float):
            if not (u == v or (math.isnan(u) and math.isnan(v)) or abs(u - v) <= 1e-9 * max(abs(u), abs(v))):
                return False
        elif u != v:
            return False
    return True


def check_params(o, p, name, when):
    got = sut("get_params()", o.get_params)
    for k, v in p.items():
        g = getkey(got, k, f"parameters {when}")
        if not (g is v or g == v):
            fail(f"{name}: parameter {k} is {g!r} {when}, expected {v!r}")
    known = models.CLASSES[name][1]
    for k in got:
        ensure(k in known or (name == "B76" and k == "b"), f"{name}: unknown parameter {k!r} {when}")


def run(c, rec):
    name = c["cls"]
    objs = [models.build(name, c["p"])]
    model = [dict(c["p"])]
    setdone = queried = False
    copied = False
    for step, op in enumerate(c["ops"]):
        i = op[1] % len(objs)
        o, p = objs[i], model[i]
        when = f"after {step + 1} operations"
        if op[0] == "set":
            key = op[2]
            if name == "B76" and key == "FT" and c["alias"]:
                key = "S"
            sut(f"set_param({key!r}, {op[3]!r})", o.set_param, key, op[3])
            p[op[2]] = op[3]
            setdone = True
        elif op[0] == "copy" and len(objs) < 4:
            objs.append(sut("copy()", o.copy))
            model.append(dict(p))
            ensure(type(objs[-1]) is type(o), f"copy of a {type(o).__name__} is a {type(objs[-1]).__name__}")
            copied = True
        elif op[0] == "dirty":
            d = sut("get_params()", o.get_params)
            for k in list(d):
                d[k] = -1.0
        elif op[0] == "bad":
            kind, v = outcome(o.set_param, "no_such_parameter", 1.0)
            if kind == "ok":
                fail("set_param accepts an unknown parameter name")
        elif op[0] == "sibling":
            # somebody prices the same contract with another model
            ask(op[2], models.build(op[2], p), op[3])
        elif op[0] == "query":
            q = op[2]
            got = ask(name, o, q)
            fresh = ask(name, models.pristine(name, p), q)
            ensure(same(got, fresh), lambda: f"{name}.{q} {when}: {str(got[1])!r:.200}, a new object with the same parameters: {str(fresh[1])!r:.200}")
            queried = True
            rec.label(q, "raises" if fresh[0] == "raise" else "answers")
        check_params(o, p, name, when)
    for o, p in zip(objs, model):
        check_params(o, p, name, "at the end")
        a, b = ask(name, o, "call"), ask(name, models.pristine(name, p), "call")
        ensure(same(a, b), lambda: f"{name}.call at the end: {a[1]!r:.100}, a new object with the same parameters: {b[1]!r:.100}")
    rec.label(name, *(["copies"] if copied else []))
    rec.nt(setdone and queried)


@st.composite
def array_cases(draw):
    name = draw(st.sampled_from(["GBS", "BS", "B76", "MS"]))
    p = draw(models.params(name))
    n = draw(st.integers(2, 8))
    keys = [k for k in ("S", "FT", "K", "t", "sigma", "sigmaS") if k in p and not (name == "MS" and k == "t")]
    which = draw(st.sets(st.sampled_from(keys), min_size=1))
    f = {k: [gen.sig(p[k] * math.exp(draw(gen.real(-0.2, 0.2)))) for _ in range(n)] for k in sorted(which)}
    return {"cls": name, "p": p, "arrays": f, "q": draw(st.sampled_from(["call", "put", "delta", "gamma", "vega", "theta", "greeks", "lamb", "summary", "repr"])),
            "set": draw(st.sampled_from(sorted(which))), "scalar": draw(st.booleans())}


def arrays(c, rec):
    name = c["cls"]
    p = dict(c["p"])
    arr = {k: np.array(v) for k, v in c["arrays"].items()}
    p.update(arr)
    o = models.build(name, p)
    first = ask(name, o, "call")
    k = sut("copy()", o.copy)
    for key, v in sut("get_params()", k.get_params).items():
        w = o.get_params()[key]
        if isinstance(v, np.ndarray) and isinstance(w, np.ndarray):
            ensure(not np.shares_memory(v, w), f"{name}: a copy shares its {key} with the original")
    ask(name, o, c["q"])
    for key, v in arr.items():
        ensure(np.array_equal(v, np.array(c["arrays"][key])), f"{name}.{c['q']}: the array passed as {key} was changed")
    # a scalar or another array in place of one array, on the copy only
    new = float(c["arrays"][c["set"]][0]) if c["scalar"] else np.array(c["arrays"][c["set"]])[::-1].copy()
    sut("set_param", k.set_param, c["set"], new)
    q = dict(p)
    q[c["set"]] = new
    for x, par in ((k, q), (o, p)):
        a, b = ask(name, x, "call"), ask(name, models.build(name, par), "call")
        ensure(same(a, b), lambda: f"{name}.call with arrays: {a[1]!r:.150}, a new object: {b[1]!r:.150}")
    ensure(same(ask(name, o, "call"), first), f"{name}: the price changed without a parameter being set")
    rec.label(name, c["q"])
    rec.nt()


SUBS = [
    Sub("histories", cases(), run, 1800, rule="a parameter was set and a query made"),
    Sub("arrays", array_cases(), arrays, 600, rule="every case"),
]
