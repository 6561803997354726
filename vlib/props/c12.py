"""C12 option-value trees and their plots."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib import gen, models, ref
from vlib.core import Reject, Sub, arr, close, ensure, fail, num, sut

RULE = "A case is a lattice class, a European or American contract, call or put."


@st.composite
def cases(draw):
    name = draw(st.sampled_from(models.TREES))
    p = draw(models.tree_params(name, nmax=14, z=2.5, wide=True))
    return {"cls": name, "p": p, "call": draw(st.booleans())}


def want_matrix(name, p, call):
    lv = ref.lattice_tree(name, p["S"], p["K"], p["t"], p["r"], p["b"], p["sigma"], p["n"], call, p["type"] == "american")
    return ref.lattice_matrix(name, lv)


def run(c, rec):
    name, p, call = c["cls"], c["p"], c["call"]
    if not models.lattice_ok(name, p):
        raise Reject()
    o = models.build(name, p)
    n = p["n"]
    f = o.call if call else o.put
    m = arr(sut("tree=True", f, tree=True), (2 * n + 1, n + 1) if name == "TRI" else (n + 1, n + 1), "tree matrix")
    want = want_matrix(name, p, call)
    # values high up the tree are as large as the asset gets there
    u = ref.lattice(name, p["t"], p["r"], p["b"], p["sigma"], n)[0]
    N = (p["S"] + p["K"]) * max(1.0, u**n) * math.exp(max(0.0, -p["r"] * p["t"]))
    close(m, want, 1e-10 * N, f"{name} {p['type']} {'call' if call else 'put'} tree, {n} steps")
    root = m[n, 0] if name == "TRI" else m[0, 0]
    price = num(sut("price", f))
    close(root, price, 1e-12 * abs(price) + 1e-14, "first node of the tree vs the price")
    close(num(sut("price", f, tree=False)), price, 1e-12 * abs(price), "tree=False vs default")
    pad = want == 0
    ensure(np.all(m[pad & _outside(name, n)] == 0), "entries outside the tree are not zero")
    rec.label(name, p["type"], "call" if call else "put", "n=1" if n == 1 else "n>1")
    rec.nt(n > 1 and np.count_nonzero(want) > n + 1)


def _outside(name, n):
    i, j = np.indices((2 * n + 1, n + 1) if name == "TRI" else (n + 1, n + 1))
    return np.abs(i - n) > j if name == "TRI" else i > j


@st.composite
def plots(draw):
    name = draw(st.sampled_from(models.TREES))
    p = draw(models.tree_params(name, nmax=7, z=2.0))
    if draw(st.integers(0, 11)) == 0:
        p["n"] = draw(st.integers(8, 13))
    return {"cls": name, "p": p, "call": draw(st.booleans()), "digits": draw(st.integers(0, 5)), "kw": draw(st.booleans()),
            "size": draw(st.integers(6, 20)), "earlier": draw(st.booleans())}


def plot(c, rec):
    """Every node is drawn at (step, height) with its own value, and nothing else is."""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt

    name, p, call = c["cls"], c["p"], c["call"]
    if not models.lattice_ok(name, p):
        raise Reject()
    o = models.build(name, p)
    n = p["n"]
    kw = {} if call and p["n"] % 2 else {"call": call}  # call is the default
    if c["kw"]:
        kw.update(digits=c["digits"], size=c["size"], figsize=(5, 4))
    dig = c["digits"] if c["kw"] else 2
    plt.close("all")
    try:
        if c.get("earlier"):
            # the plot of another option is still open
            other = sut("plot()", o.plot, call=not call)
            before = [a.get_text() for a in other.axes[0].texts]
        fig = sut("plot()", o.plot, **kw)
        if c.get("earlier"):
            ensure(fig is not other and [a.get_text() for a in other.axes[0].texts] == before, "plot() draws into the figure of an earlier plot")
        ensure(isinstance(fig, matplotlib.figure.Figure), f"plot() returned {type(fig).__name__}")
        if c["kw"]:
            ensure(tuple(fig.get_size_inches()) == (5.0, 4.0), "figsize is not passed on")
        ensure(len(fig.axes) == 1, f"{len(fig.axes)} axes")
        ax = fig.axes[0]
        want = want_matrix(name, p, call)
        need = {}
        for j in range(n + 1):
            for k in range(2 * j + 1 if name == "TRI" else j + 1):
                y = j - k if name == "TRI" else j - 2 * k
                need[(j, y)] = want[n - y, j] if name == "TRI" else want[k, j]
        seen = set()
        for a in ax.texts:
            if not hasattr(a, "xy"):
                continue
            key = (int(round(a.xy[0])), int(round(a.xy[1])))
            ensure(key in need, f"{name} plot has a node at {tuple(a.xy)}, which is outside a tree of {n} steps")
            try:
                v = float(a.get_text())
            except ValueError:
                fail(f"{name} plot node {key} is labelled {a.get_text()!r}")
            close(v, need[key], 0.500001 * 10.0**-dig + 1e-10 * (abs(need[key]) + p["S"] + p["K"]), f"{name} plot, node {key} of {n} steps")
            # the label is the value rounded to `digits` decimals, and says no more
            ensure(abs(v - round(v, dig)) <= 1e-9 * abs(v), f"{name} plot node {key} is labelled {a.get_text()!r} with digits={dig}")
            seen.add(key)
        ensure(seen == set(need), f"{name} plot of {n} steps misses nodes {sorted(set(need) - seen)[:5]}")
    finally:
        plt.close("all")
    rec.label(name, p["type"], "call" if call else "put", f"n={n}")
    rec.nt(n > 1)


SUBS = [
    Sub("matrix", cases(), run, 4000, rule="at least two steps and more than n + 1 nodes with a value"),
    Sub("plot", plots(), plot, 320, rule="at least two steps"),
]
