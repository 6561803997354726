"""C19 Heston-Nandi GARCH estimation."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from finoptions import heston_nandi_options as hn
from vlib import gen, ref
from vlib.core import Sub, arr, close, ensure, fail, getkey, num, sut
from vlib.props import c18

RULE = (
    "A case is a return series simulated from a stationary Heston-Nandi model, stationary starting "
    "values (given or default) and the symmetric or asymmetric fit."
)
NAMES = ("lamb", "omega", "alpha", "beta", "gamma")


@st.composite
def cases(draw):
    p = draw(c18.params())
    sym = draw(st.booleans())
    n = draw(gen.size(5, 100, 600, 12))
    c = {"true": p, "seed": draw(st.integers(0, 10**6)), "n": n, "symmetric": sym, "start": {}, "maxiter": draw(st.sampled_from([None, 20, 3, 1]))}
    h = (p["omega"] + p["alpha"]) / (1 - p["beta"] - p["alpha"] * p["gamma"] ** 2)
    if draw(st.integers(0, 3)) == 0:
        # the same model in other units of return: a variance between 0.02 and 0.4, where the likelihood changes its sign
        f = math.exp(draw(gen.real(math.log(0.02), math.log(0.4)))) / h
        p["omega"], p["alpha"], p["gamma"] = gen.sig(p["omega"] * f), gen.sig(p["alpha"] * f), gen.sig(p["gamma"] / math.sqrt(f))
        h *= f
    if sym and draw(st.booleans()):
        # starting values that are off by up to a factor of twenty in variance, or orders of magnitude too small
        f = h * math.exp(draw(gen.real(-3.0, 3.0) | gen.real(-9.0, -5.0)))
        f = min(f, 1.5)  # omega is estimated on a logistic scale, below one
        c["start"] = {"lamb": p["lamb"], "omega": gen.sig(0.5 * f), "alpha": gen.sig(0.05 * f), "beta": 0.3}
        if draw(st.booleans()):
            c["start"]["gamma"] = p["gamma"]  # ignored by a symmetric fit... but a start value all the same
    elif sym:
        keep = draw(st.sets(st.sampled_from(["lamb", "beta", "omega"])))
        for k in keep:
            c["start"][k] = max(p[k], 0.01) if k == "beta" else p[k]
        c["start"].pop("gamma", None)
    else:
        c["start"] = {k: p[k] for k in NAMES}
        c["start"]["gamma"] = gen.sig(p["gamma"] * draw(gen.real(0.2, 1.0)))
        c["start"]["beta"] = max(p["beta"], 0.01)
        if c["start"]["beta"] + c["start"]["alpha"] * c["start"]["gamma"] ** 2 >= 0.99:
            c["start"]["gamma"] = 0.0
        # defaults are starting values too
        for k in draw(st.sets(st.sampled_from(["lamb", "omega", "alpha", "beta", "gamma"]))):
            c["start"].pop(k)
        if c["start"].get("beta", 0.1) + c["start"].get("alpha", 0.1) * c["start"].get("gamma", 0) ** 2 >= 0.99:
            c["start"].pop("gamma", None)
    if p["rf"] != 0:
        c["rf"] = p["rf"]
    return c


def fit(c, x, trace=False):
    kw = dict(c["start"])
    if trace is not None:
        kw["trace"] = trace
    if "rf" in c:
        kw["rf"] = c["rf"]
    if not (c["symmetric"] and c["seed"] % 2):
        kw["symmetric"] = c["symmetric"]  # symmetric is the default
    if c["maxiter"] is not None:
        kw["options"] = {"maxiter": c["maxiter"]}
    return sut("hngarch_fit(...)", hn.hngarch_fit, x, **kw)


def run(c, rec):
    z = np.random.RandomState(c["seed"]).normal(size=c["n"])
    x = ref.hn_path(z, **c["true"])
    if float(np.var(x)) > 0.9 or not np.isfinite(np.var(x)):
        return  # the default start of omega is the variance, which has to lie below one
    keep = x.copy()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fit(c, x)
    ensure(out.getvalue() == "", "a fit without trace prints")
    ensure(np.array_equal(x, keep), "the fit changed the data")
    rf = c.get("rf", 0.0)
    s = c["start"]
    var = float(np.var(x))
    start = {"lamb": s.get("lamb", -0.5), "omega": s.get("omega", var)}
    start["alpha"] = s.get("alpha", 0.1 * start["omega"])
    start["beta"] = s.get("beta", 0.1)
    start["gamma"] = 0.0 if c["symmetric"] else s.get("gamma", 0.0)
    n0 = ref.hn_nll(x, **start, rf=rf)[0]
    close(num(getkey(r, "value", "fit")), n0, 1e-8 * (c["n"] + abs(n0)), "value vs negative log-likelihood of the starting values")
    est = arr(getkey(r, "estimate", "fit"), (5,), "estimate")
    model = getkey(r, "model", "fit")
    for k, v in zip(NAMES, est):
        close(num(getkey(model, k, "model"), k), v, 1e-12 * abs(v), f"model[{k!r}] vs estimate")
    close(num(getkey(model, "rf", "model")), rf, 0, "model['rf']")
    e = dict(zip(NAMES, map(float, est)))
    for k in ("omega", "alpha", "beta"):
        ensure(0 <= e[k] <= 1, f"estimate of {k} {e[k]} outside [0, 1]")
    if c["symmetric"]:
        ensure(e["gamma"] == 0, f"symmetric fit with gamma {e['gamma']}")
    pers = e["beta"] + e["alpha"] * e["gamma"] ** 2
    close(num(getkey(r, "persistence", "fit")), pers, 1e-9, "persistence")
    if 0.999999 < pers < 1.0000001:
        # at the border of stationarity the stationary variance has no accurate digits
        rec.label("at the border")
        return
    n1, h, zz = ref.hn_nll(x, **e, rf=rf)
    ensure(math.isfinite(n1), "estimate has no finite likelihood")
    close(getkey(r, "h", "fit"), h, 1e-6 * np.abs(h), "h vs variance recursion at the estimate")
    close(getkey(r, "z", "fit"), zz, 1e-5 * (1 + np.abs(zz)), "z vs standardized residuals at the estimate")
    close(num(getkey(r, "sigma2", "fit")), (e["omega"] + e["alpha"]) / (1 - pers), 1e-5 * h[0], "sigma2 vs stationary variance")
    tol = 1e-7 * (c["n"] + abs(n0))
    ensure(n1 <= n0 + tol, f"the fit made the likelihood worse: {n0} to {n1}")
    # 'minimum' follows fOptions: log-likelihood plus a constant
    close(num(getkey(r, "minimum", "fit")), -n1 + c["n"] * math.sqrt(2 * math.pi), tol + 1e-4, "minimum vs log-likelihood at the estimate")
    best = 0.0
    if c["maxiter"] is None:
        # a converged fit: no walk along one coordinate that leads down all the way ends much lower
        # (the likelihood of a short series has several minima)
        for k in ("omega", "alpha", "beta"):
            for d in (-1.0, -0.3, 0.3, 1.0):
                u = n1
                for f in (d / 32, d / 16, d / 8, d / 4, d / 2, 3 * d / 4, d):
                    o = e[k] * math.exp(f) / (1 - e[k] + e[k] * math.exp(f))
                    q = dict(e, **{k: o})
                    if q["beta"] + q["alpha"] * q["gamma"] ** 2 >= 1:
                        break
                    v = ref.hn_nll(x, **q, rf=rf)[0]
                    if not v < u:
                        break
                    u = v
                best = max(best, n1 - u)
        ensure(best <= 1 + 0.05 * (n0 - n1), f"likelihood at the estimate {n1}; {best} better is one walk downhill away (started at {n0})")
        rec.label("converged fit")
    rec.label("symmetric" if c["symmetric"] else "asymmetric", f"maxiter {c['maxiter']}")
    rec.nt(n0 - n1 > 0.1 and (c["symmetric"] or e["gamma"] != 0))


def same(c, rec):
    c = dict(c, maxiter=min(c["maxiter"] or 4, 4), n=min(c["n"], 30))
    z = np.random.RandomState(c["seed"]).normal(size=c["n"])
    x = ref.hn_path(z, **c["true"])
    a = fit(c, x)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        b = fit(c, x, trace=True if c["seed"] % 2 else None)  # trace is on by default
    ensure(out.getvalue().strip() != "", "a fit with trace prints nothing")
    for k in ("value", "estimate", "minimum", "h", "z", "persistence", "sigma2"):
        if not np.array_equal(np.asarray(getkey(a, k, "fit")), np.asarray(getkey(b, k, "fit"))):
            fail(f"{k} differs between two fits of the same data, without and with trace")
    rec.nt(True)


SUBS = [
    Sub("fit", cases(), run, 1200, 10000, rule="likelihood improved by more than 0.1 (with asymmetry where estimated)"),
    Sub("repeat", cases(), same, 160, 2000, rule="every case"),
]
