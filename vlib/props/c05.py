"""C05 vanilla options evaluate arrays elementwise."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models
from vlib.core import Sub, arr, close, ensure, fail, num, sut

RULE = (
    "A case is a vanilla class, 2 to 8 contracts and the non-empty set of parameters that are passed as "
    "arrays (the others are those of the first contract).  The oracle is the same class evaluated "
    "contract by contract with scalars."
)
N_ARR = {"GBS": 5, "BS": 5, "B76": 4, "MS": 13}


@st.composite
def cases(draw):
    name = draw(st.sampled_from(["GBS", "GBS", "BS", "B76", "MS"]))
    n = draw(gen.size(2 if name == "MS" else 1, 8, 20 if name == "MS" else 150, 15))
    rows = [draw(models.params(name)) for _ in range(n)]
    if name == "MS":
        # any mixture of rows has to be a valid contract
        t = min(r["t"] for r in rows)
        T = max(r["T"] for r in rows)
        for r in rows:
            r["t"] = gen.sig(t * (1 + 0.3 * (r["KappaE"] % 1)))
            r["T"] = gen.sig(max(T, 1.4 * t) * (1 + 0.3 * (r["KappaF"] % 1)))
            for k in ("rhoSE", "rhoSF", "rhoEF"):
                r[k] = gen.sig(r[k] * 0.5)
    keys = [k for k in models.CLASSES[name][1] if k in rows[0]]
    some = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=len(keys), unique=True))
    if draw(st.integers(0, 3)) == 0:
        some = ["K"] if draw(st.booleans()) else keys
    if draw(st.integers(0, 5)) == 0 and name != "MS":
        whole = draw(st.sampled_from([("K",), ("K", "S", "FT"), ("S", "FT"), ("K", "t"), ("S", "FT", "t")]))
        for r in rows:
            for k in whole:
                if k in r:
                    r[k] = float(max(1, round(r[k])))
    return {"cls": name, "rows": rows, "arrays": sorted(some), "greek": draw(st.sampled_from(
        ["delta", "theta", "vega", "rho", "lamb", "gamma", "c_of_c", "greeks", "fdm"])),
        "fdm": draw(st.sampled_from(["delta", "theta", "vega", "gamma", "lamb", "rho"])), "call": draw(st.booleans())}


def run(c, rec):
    name, call = c["cls"], c["call"]
    rows = [dict(r) for r in c["rows"]]
    for r in rows:
        for k in r:
            if k not in c["arrays"]:
                r[k] = rows[0][k]
    if name != "MS":
        for r in rows:  # keep the moneyness within reach so that lambda is well conditioned
            f = r.get("S", r.get("FT")) * math.exp(r.get("b", 0.0) * r["t"])
            w = 4 * r["sigma"] * math.sqrt(r["t"]) + 0.1
            if "K" in c["arrays"]:
                r["K"] = gen.sig(f * math.exp(max(-w, min(w, math.log(r["K"] / f)))))
    ints = [k for k in ("K", "S", "FT", "t") if k in rows[0] and name != "MS" and all(float(r[k]).is_integer() for r in rows)]
    p = {}
    for k in rows[0]:
        if k in c["arrays"]:
            p[k] = np.array([r[k] for r in rows], dtype=int if k in ints else float)
        else:
            p[k] = int(rows[0][k]) if k in ints else rows[0][k]
    n = len(rows)
    o = models.build(name, p)
    each = [models.build(name, r) for r in rows]
    N = np.array([(r.get("S") or r.get("FT")) * math.exp((r.get("b", 0) - r.get("r", 0)) * r["t"]) + r["K"] for r in rows])

    def same(f, tol, what, shape=(n,), scale=1.0, mask=None):
        got = arr(sut(what, f, o), shape, what)
        want = np.array([np.asarray(sut(what + " (scalar)", f, e), dtype=float) for e in each])
        want = want.reshape(shape)
        t = tol * (np.abs(want) + scale)
        if mask is not None:
            got, want = np.where(mask, got, 0.0), np.where(mask, want, 0.0)
            t = np.where(mask, t, 1.0)
        ensure(np.all((np.abs(got - want) <= t) | (got == want)), lambda: f"{name} {what} of arrays {c['arrays']}: {got!r}, one by one: {want!r}")
        return want

    cp = same(lambda x: x.call(), 1e-10, "call()", scale=N)
    pp = same(lambda x: x.put(), 1e-10, "put()", scale=N)
    price = cp if call else pp
    ok = price > 1e-5 * N
    rec.label(name, f"{n} contracts", *("array " + k for k in c["arrays"]), *("integer " + k for k in ints))
    g = c["greek"]
    if name == "MS" and g in ("rho", "c_of_c", "fdm", "greeks"):
        g = "vega"
    rec.label(g if g != "fdm" else "fdm " + c["fdm"])
    S = np.array([r.get("S") or r.get("FT") for r in rows])
    if g == "greeks":
        d = sut("greeks()", o.greeks, call)
        ds = [sut("greeks()", e.greeks, call) for e in each]
        for k in ds[0]:
            if k not in d:
                fail(f"greeks() of arrays has no {k}")
            w = np.array([num(x[k]) for x in ds])
            got = np.asarray(d[k], dtype=float)
            m = ok if k == "lambda" else np.ones(n, bool)
            # an entry that depends on scalars only may come back as a scalar
            got = np.broadcast_to(got, (n,)) if got.shape == () else arr(got, (n,), f"greeks()[{k}]")
            got, w = np.where(m, got, 0.0), np.where(m, w, 0.0)
            tol = 1e-9 * np.abs(w) + 1e-12 * fd_scale({"lambda": "lamb"}.get(k, k), rows, N, S, price)
            close(got, w, tol, f"{name} greeks()[{k}] of arrays {c['arrays']}")
    elif g == "fdm":
        which = c["fdm"]
        bs = {r.get("b", 0.0) for r in rows}
        if which == "rho" and bs != {0.0}:
            which = "delta"
        kw = {} if which in ("vega", "gamma") else {"call": call}
        smooth = min(r["t"] for r in rows) > 0.05
        m = ok if which == "lamb" else np.ones(n, bool)
        if smooth:
            same(lambda x: getattr(x, which)(method="fdm", **kw), 2e-4, f"{which}(fdm)", scale=fd_scale(which, rows, N, S, price), mask=m)
    else:
        kw = {} if g in ("vega", "gamma") else {"call": call}
        m = ok if g == "lamb" else None
        if name == "MS":
            small = S > 0
            tol = 2e-4
            if g == "vega":
                # one row per contract: sigmaS, sigmaE, sigmaF
                same(lambda x: x.vega(), tol, "vega()", shape=(n, 3), scale=N[:, None])
            else:
                same(lambda x: getattr(x, g)(**kw), tol, f"{g}()", scale=fd_scale(g, rows, N, S, price), mask=small if m is None else small & m)
        else:
            same(lambda x: getattr(x, g)(**kw), 1e-9, f"{g}()", scale=1e-3 * fd_scale(g, rows, N, S, price), mask=m)
    rec.nt(len(set(np.round(cp / N, 9))) > 1)


def fd_scale(g, rows, N, S, price):
    t = np.array([r["t"] for r in rows])
    if g == "delta":
        return N / S
    if g == "lamb":
        return N / np.maximum(price, 1e-5 * N)
    if g == "gamma":
        return N / S**2
    if g == "theta":
        return N / t
    return N * np.maximum(1.0, t)


@st.composite
def grids(draw):
    name = draw(st.sampled_from(["GBS", "GBS", "BS", "B76", "MS"]))
    m, n = draw(st.integers(2, 4)), draw(st.integers(2, 5))
    a = draw(models.params(name))
    keys = [k for k in models.CLASSES[name][1] if k in a]
    how = {k: draw(st.sampled_from(["scalar", "scalar", "row", "column", "grid"])) for k in keys}
    one, two = draw(st.permutations(keys))[:2]
    how[one], how[two] = draw(st.sampled_from([("row", "column"), ("column", "row"), ("grid", "scalar"), ("grid", "row"), ("column", "grid")]))
    # the factors keep every mixture of values a valid contract
    f = draw(st.lists(st.floats(0.8, 1.2).map(lambda x: round(x, 4)), min_size=m * n, max_size=m * n))
    return {"cls": name, "p": a, "how": how, "m": m, "n": n, "f": f, "call": draw(st.booleans()),
            "ask": draw(st.sampled_from(["delta", "gamma", "theta", "vega", "rho", "lamb", "c_of_c", "volatility", "volatility"]))}


def spread_values(k, v, f):
    """Values of one parameter around v that are valid together with those of the others."""
    if k == "t":
        return v * (0.9 + 0.1 * f)
    if k == "T":
        return v * (1.3 + 0.1 * f)
    if k.startswith("rho"):
        return 0.5 * v * f
    if k == "b" and v == 0 and f > 1.1:
        return 0.02
    return v * f


def grid(c, rec):
    name, m, n, call = c["cls"], c["m"], c["n"], c["call"]
    f = np.array(c["f"]).reshape(m, n)
    p, cell = {}, {}
    for k, h in c["how"].items():
        v = spread_values(k, c["p"][k], 1.0)
        if h != "scalar":
            g = {"row": f[:1, :], "column": f[:, :1], "grid": f}[h]
            v = np.array([[spread_values(k, c["p"][k], x) for x in row] for row in g])
        cell[k] = np.broadcast_to(v, (m, n))
        p[k] = v[0] if h == "row" and c["f"][0] > 1 else v
    o = models.build(name, p)
    each = [[models.build(name, {k: float(w[i, j]) for k, w in cell.items()}) for j in range(n)] for i in range(m)]

    def table(what, fn):
        got = arr(sut(what, fn, o), None, what)
        want = np.array([[num(sut(what + " (scalar)", fn, e), what) for e in row] for row in each])
        ensure(got.shape == (m, n), lambda: f"{name} {what} of a {m} x {n} grid {c['how']} has shape {got.shape}")
        return got, want

    F = cell["S"] if "S" in cell else cell["FT"]
    N = F * np.exp((cell.get("b", 0.0) - cell.get("r", 0.0)) * cell["t"]) + cell["K"]
    for side in ("call", "put"):
        got, want = table(f"{side}()", lambda x: getattr(x, side)())
        close(got, want, 1e-10 * (np.abs(want) + N), f"{name} {side}() of a grid")
        if side == ("call" if call else "put"):
            price = want
    ask = c["ask"]
    rec.label(name)
    if name == "MS":
        rec.nt(len(set(np.round(price / N, 9).ravel())) > 2)
        return
    rec.label(ask)
    if ask == "volatility":
        vega = np.array([[num(sut("vega()", e.vega), "vega") for e in row] for row in each])
        if np.all(vega * cell["sigma"] > 5e-3 * N) and np.all(cell["sigma"] >= 0.06) and np.all(cell["sigma"] <= 1.2):
            b = models.build(name, {k: v for k, v in p.items() if k != "sigma"})
            got = arr(sut("volatility(grid)", b.volatility, price, call=call), (m, n), "volatility of a grid of prices")
            close(got, cell["sigma"], 1e-5 * cell["sigma"] + 1e-7 * N / vega, f"{name} volatility of a grid of prices")
            rec.label("volatility found")
    else:
        kw = {} if ask in ("vega", "gamma") else {"call": call}
        got, want = table(f"{ask}()", lambda x: getattr(x, ask)(**kw))
        flat = [{k: float(w[i, j]) for k, w in cell.items()} for i in range(m) for j in range(n)]
        scale = fd_scale(ask, flat, N.ravel(), F.ravel(), price.ravel()).reshape(m, n)
        ok = price > 1e-5 * N if ask == "lamb" else np.ones((m, n), bool)
        close(np.where(ok, got, 0.0), np.where(ok, want, 0.0), 1e-9 * (np.abs(np.where(ok, want, 0.0)) + 1e-3 * scale), f"{name} {ask}() of a grid")
    rec.nt(len(set(np.round(price / N, 9).ravel())) > 2)


SUBS = [
    Sub("arrays", cases(), run, 2200, rule="the contracts have different prices per unit of notional"),
    Sub("grid", grids(), grid, 900, rule="the grid has more than two different prices per unit of notional"),
]
