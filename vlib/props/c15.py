"""C15 American two-asset lattice options."""
from vlib import gen, models, ref
from vlib.core import Sub, close, ensure, num, sut
from vlib.props import c14

models.WHOLE = True
RULE = (
    "A case is one of the nine American payoffs (through the generic class or its named subclass), "
    "quantities, correlation and a number of steps.  The oracle is dynamic programming over "
    "Rubinstein's lattice."
)


def run(c, rec):
    p = c14.full(c)
    o = c14.obj(c)
    e = models.build(c["cls"], dict(c["p"], otype="european"))
    N = c14.notional(p) + 2 * abs(p.get("K") or 0) + p["Q1"] * p["S1"] + p["Q2"] * p["S2"]
    if p["option"] in (8, 9):
        N = c14.notional(p) * 4
    for call in (True, False):
        w = "call" if call else "put"
        v = num(sut(w, o.call if call else o.put))
        u = num(sut(w, e.call if call else e.put))
        want = ref.spread_lattice(**p, otype="american", call=call)
        close(v, want, 1e-9 * N, f"{c['cls']} American payoff {p['option']} {w}, {p['n']} steps, vs dynamic programming")
        intr = float(ref.payoff2(p["option"], call, p["S1"], p["S2"], p["Q1"], p["Q2"], p.get("K"), p.get("K2")))
        c14.root(o, call, v, 1e-9 * N)
        ensure(v >= u - 1e-9 * N, f"American {w} {v} below the European {u}")
        ensure(v >= intr - 1e-9 * N, f"American {w} {v} below its exercise value {intr}")
        if v > max(u, intr) + 1e-5 * N:
            rec.label(f"payoff {p['option']} premium")
            rec.nt(p["n"] > 1)
    rec.label(c["cls"], f"payoff {p['option']}", "n=1" if p["n"] == 1 else "n>1")


SUBS = [Sub("american", c14.cases(american=True), run, 4000, rule="two steps or more and a premium over both the European and the exercise value")]
