"""Reference models, written from the published definitions (not from the code under
test).  Only numpy/scipy; nothing here imports finoptions."""
import math

import numpy as np
from scipy import optimize, special, stats

N = special.ndtr


def npdf(x):
    return np.exp(-0.5 * np.asarray(x, dtype=float) ** 2) / math.sqrt(2 * math.pi)


# --------------------------------------------------------------------------- GBS
def gbs_d(S, K, t, r, b, s):
    d1 = (np.log(S / K) + (b + s * s / 2) * t) / (s * np.sqrt(t))
    return d1, d1 - s * np.sqrt(t)


def gbs(S, K, t, r, b, s, call=True):
    d1, d2 = gbs_d(S, K, t, r, b, s)
    z = 1 if call else -1
    return z * (S * np.exp((b - r) * t) * N(z * d1) - K * np.exp(-r * t) * N(z * d2))


def gbs_greeks(S, K, t, r, b, s, call=True):
    """Partial derivatives of the closed form; theta is per year of calendar time (minus
    the derivative in t), rho follows Haug: with b != 0 the carry b moves with r one for
    one (b = r - q, q held fixed), with b == 0 (futures) b stays 0."""
    d1, d2 = gbs_d(S, K, t, r, b, s)
    z = 1 if call else -1
    e = np.exp((b - r) * t)
    df = np.exp(-r * t)
    price = gbs(S, K, t, r, b, s, call)
    out = {}
    out["delta"] = z * e * N(z * d1)
    out["gamma"] = e * npdf(d1) / (S * s * np.sqrt(t))
    out["vega"] = S * e * npdf(d1) * np.sqrt(t)
    out["theta"] = (
        -S * e * npdf(d1) * s / (2 * np.sqrt(t))
        - z * (b - r) * S * e * N(z * d1)
        - z * r * K * df * N(z * d2)
    )
    out["rho"] = np.where(np.asarray(b) != 0, z * t * K * df * N(z * d2), -t * price)
    out["CofC"] = z * t * S * e * N(z * d1)
    return out, price


# ------------------------------------------------------------------------ Miltersen
def ms_var(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF, nodes=80):
    """Integrated variance of the log futures price, and its integrated covariance with
    the forward-rate part of the bond, by Gauss-Legendre over calendar time."""
    x, w = np.polynomial.legendre.leggauss(nodes)
    s = 0.5 * t * (x + 1)
    w = 0.5 * t * w
    AF = sF * -np.expm1(-kF * (T - s)) / kF
    AE = sE * -np.expm1(-kE * (T - s)) / kE
    BF = sF * -np.expm1(-kF * (t - s)) / kF
    v = sS**2 + AF**2 + AE**2 + 2 * rSF * sS * AF - 2 * rSE * sS * AE - 2 * rEF * AF * AE
    c = BF * (sS * rSF + AF - rEF * AE)
    return float(np.sum(w * v)), float(np.sum(w * c))


def ms(Pt, FT, K, t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF, call=True):
    v2, c = ms_var(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF)
    v = math.sqrt(v2)
    fwd = FT * math.exp(-c)
    d1 = (math.log(FT / K) - c + v2 / 2) / v
    d2 = d1 - v
    z = 1 if call else -1
    return float(Pt * z * (fwd * N(z * d1) - K * N(z * d2)))


# ----------------------------------------------------------------------------- BAW
def baw_parts(K, t, r, b, s, call):
    n = 2 * b / s**2
    X = 2 * r / (s**2 * -math.expm1(-r * t))
    z = 1 if call else -1
    Q = (-(n - 1) + z * math.sqrt((n - 1) ** 2 + 4 * X)) / 2

    def A(si):
        d1, _ = gbs_d(si, K, t, r, b, s)
        return z * (si / Q) * (1 - math.exp((b - r) * t) * float(N(z * d1)))

    def f(si):
        return z * (si - K) - float(gbs(si, K, t, r, b, s, call)) - A(si)

    return Q, A, f


def baw_critical(K, t, r, b, s, call):
    Q, A, f = baw_parts(K, t, r, b, s, call)
    if call:
        lo, hi = K, 2 * K
        while f(hi) < 0:
            lo, hi = hi, hi * 2
            if hi > 1e15 * K:
                return Q, A, math.inf
    else:
        lo, hi = K / 2, K
        while f(lo) < 0:
            lo, hi = lo / 2, lo
            if lo < 1e-15 * K:
                return Q, A, 0.0
    return Q, A, optimize.brentq(f, lo, hi, xtol=1e-13 * K, rtol=1e-14, maxiter=500)


def baw(S, K, t, r, b, s, call=True):
    if call and b >= r:
        return float(gbs(S, K, t, r, b, s, True)), math.inf
    Q, A, crit = baw_critical(K, t, r, b, s, call)
    z = 1 if call else -1
    if z * (S - crit) >= 0:
        return z * (S - K), crit
    if not 0 < crit < math.inf:
        return float(gbs(S, K, t, r, b, s, call)), crit
    return float(gbs(S, K, t, r, b, s, call)) + A(crit) * (S / crit) ** Q, crit


# ----------------------------------------------------------------------- BS (1993)
def bs93_call(S, K, t, r, b, s):
    """(price, trigger); trigger None when early exercise is never optimal (b >= r)."""
    bs93_call.magnitude = 0.0
    if b >= r:
        bs93_call.magnitude = S * math.exp((b - r) * t) + K * math.exp(-r * t)
        return float(gbs(S, K, t, r, b, s, True)), None
    s2 = s * s
    beta = (0.5 - b / s2) + math.sqrt((b / s2 - 0.5) ** 2 + 2 * r / s2)
    binf = beta / (beta - 1) * K
    b0 = max(K, r / (r - b) * K)
    h = -(b * t + 2 * s * math.sqrt(t)) * b0 / (binf - b0)
    I = b0 + (binf - b0) * -math.expm1(h)
    if S >= I:
        return S - K, I

    mag = [0.0]

    def phi(g, H, weight, unit):
        """weight * unit^-g * phi(S, t, g, H, I): powers are taken of ratios, so nothing overflows early."""
        lam = -r + g * b + 0.5 * g * (g - 1) * s2
        kap = 2 * b / s2 + 2 * g - 1
        sq = s * math.sqrt(t)
        d = -(math.log(S / H) + (b + (g - 0.5) * s2) * t) / sq
        front = lam * t + g * math.log(S / unit)
        back = front + kap * math.log(I / S)
        if max(front, back) > 700:
            mag[0] = math.inf
            return math.nan
        mag[0] += abs(weight) * (math.exp(front) + math.exp(back))
        return weight * (math.exp(front) * float(N(d)) - math.exp(back) * float(N(d - 2 * math.log(I / S) / sq)))

    p = (
        (I - K) * (S / I) ** beta
        - phi(beta, I, I - K, I)
        + phi(1, I, 1, 1)
        - phi(1, K, 1, 1)
        - phi(0, I, K, 1)
        + phi(0, K, K, 1)
    )
    bs93_call.magnitude = mag[0]  # what errors of N(x) are multiplied by
    return p, I


def bs93(S, K, t, r, b, s, call=True):
    return bs93_call(S, K, t, r, b, s) if call else bs93_call(K, S, t, r - b, -b, s)


# ----------------------------------------------------------------------------- RGW
def bvn(a, b, rho):
    """P(X<=a, Y<=b), by 1-D quadrature of the conditional law (Plackett), accurate to
    ~1e-13."""
    x, w = _LEG
    th = math.asin(max(-1.0, min(1.0, rho)))
    u = 0.5 * th * (x + 1)
    sn, cs = np.sin(u), np.cos(u)
    g = np.exp(-(a * a - 2 * a * b * sn + b * b) / (2 * cs * cs))
    return float(N(a) * N(b) + 0.5 * th * np.sum(w * g) / (2 * math.pi))


_LEG = np.polynomial.legendre.leggauss(400)


def rgw_never_optimal(K, t, td, r, D):
    return D <= K * -math.expm1(-r * (t - td))


def rgw(S, K, t, td, r, D, s):
    Sx = S - D * math.exp(-r * td)
    if rgw_never_optimal(K, t, td, r, D):
        return float(gbs(Sx, K, t, r, r, s, True)), None

    def f(x):
        return float(gbs(x, K, t - td, r, r, s, True)) - (x + D - K)

    hi = max(K, 1e-8)
    while f(hi) > 0:
        hi *= 2
        if hi > 1e9:
            return None, None
    I = optimize.brentq(f, 1e-12 * K, hi, xtol=1e-12, rtol=1e-14)
    sq, sd = s * math.sqrt(t), s * math.sqrt(td)
    a1 = (math.log(Sx / K) + (r + s * s / 2) * t) / sq
    a2 = a1 - sq
    b1 = (math.log(Sx / I) + (r + s * s / 2) * td) / sd
    b2 = b1 - sd
    rho = -math.sqrt(td / t)
    p = (
        Sx * N(b1)
        + Sx * bvn(a1, -b1, rho)
        - K * math.exp(-r * t) * bvn(a2, -b2, rho)
        - (K - D) * math.exp(-r * td) * N(b2)
    )
    return float(p), I


# ---------------------------------------------------------------------- lattices 1-D
def lattice(kind, t, r, b, s, n):
    """(steps up/down multipliers, probabilities, one-step discount)."""
    dt = t / n
    df = math.exp(-r * dt)
    if kind == "CRR":
        u = math.exp(s * math.sqrt(dt))
        d = 1 / u
        p = (math.exp(b * dt) - d) / (u - d)
    elif kind == "JR":
        m = (b - s * s / 2) * dt
        u, d = math.exp(m + s * math.sqrt(dt)), math.exp(m - s * math.sqrt(dt))
        p = 0.5
    elif kind == "TIAN":
        M, V = math.exp(b * dt), math.exp(s * s * dt)
        q = math.sqrt(V * V + 2 * V - 3)
        u, d = M * V / 2 * (V + 1 + q), M * V / 2 * (V + 1 - q)
        p = (M - d) / (u - d)
    elif kind == "TRI":
        u = math.exp(s * math.sqrt(2 * dt))
        d = 1 / u
        h = math.exp(s * math.sqrt(dt / 2))
        m = math.exp(b * dt / 2)
        pu = ((m - 1 / h) / (h - 1 / h)) ** 2
        pd = ((h - m) / (h - 1 / h)) ** 2
        return u, d, (pd, 1 - pu - pd, pu), df
    else:
        raise ValueError(kind)
    return u, d, (1 - p, p), df


def lattice_prices(kind, S, u, d, j):
    """Asset prices of level j, lowest first."""
    if kind == "TRI":
        k = np.arange(-j, j + 1)
        return S * np.where(k >= 0, u ** np.maximum(k, 0).astype(float), d ** np.maximum(-k, 0).astype(float))
    k = np.arange(j + 1)
    return S * np.exp(k * math.log(u) + (j - k) * math.log(d))


def lattice_tree(kind, S, K, t, r, b, s, n, call, american):
    """Every level of option values, level j as an array with the lowest price first."""
    u, d, pr, df = lattice(kind, t, r, b, s, n)
    z = 1 if call else -1
    v = np.maximum(z * (lattice_prices(kind, S, u, d, n) - K), 0.0)
    levels = [v]
    for j in range(n - 1, -1, -1):
        m = (2 * j + 1) if kind == "TRI" else (j + 1)
        v = df * sum(p * v[i : i + m] for i, p in enumerate(pr))
        if american:
            v = np.maximum(v, z * (lattice_prices(kind, S, u, d, j) - K))
        levels.append(v)
    return levels[::-1]


def lattice_price(kind, S, K, t, r, b, s, n, call, american):
    return float(lattice_tree(kind, S, K, t, r, b, s, n, call, american)[0][0])


def lattice_matrix(kind, levels):
    """The documented matrix: column j holds time step j, the highest node first; a binomial
    matrix is upper triangular, a trinomial one is centred on the middle row."""
    n = len(levels) - 1
    if kind == "TRI":
        out = np.zeros((2 * n + 1, n + 1))
        for j, v in enumerate(levels):
            out[n - j : n + j + 1, j] = v[::-1]
        return out
    out = np.zeros((n + 1, n + 1))
    for j, v in enumerate(levels):
        out[: j + 1, j] = v[::-1]
    return out


def binom_expectation(kind, S, K, t, r, b, s, n, call):
    """European value as one discounted sum over the terminal law (no backward induction).
    Needs probabilities in [0, 1]."""
    u, d, pr, df = lattice(kind, t, r, b, s, n)
    z = 1 if call else -1
    pay = np.maximum(z * (lattice_prices(kind, S, u, d, n) - K), 0.0)
    if kind == "TRI":
        # the two-step recombination: (sqrt(pu) x + sqrt(pd))^2 when pu, pd come from one p
        law = np.array([1.0])
        for _ in range(n):
            law = np.convolve(law, pr)
    else:
        law = stats.binom.pmf(np.arange(n + 1), n, pr[1])
    return float(df**n * np.sum(law * pay))


# ------------------------------------------------------------------------ lattice 2-D
def payoff2(option, call, S1, S2, Q1, Q2, K, K2):
    z = 1 if call else -1
    a, b = Q1 * S1, Q2 * S2
    if option == 1:
        x = z * ((a - b) - K)
    elif option == 2:
        x = z * (np.maximum(a, b) - K)
    elif option == 3:
        x = z * (np.minimum(a, b) - K)
    elif option == 4:
        x = np.maximum(z * (a - K), z * (b - K2))
    elif option == 5:
        x = np.maximum(z * (a - K), z * (K2 - b))
    elif option == 6:
        x = z * ((a + b) - K)
    elif option == 7:
        x = z * (b - a)
    elif option == 8:
        x = z * (a / b - K)
    elif option == 9:
        x = z * (a * b - K)
    return np.maximum(x, 0.0)


def spread_nodes(S1, S2, t, b1, b2, s1, s2, rho, n, m):
    """Rubinstein's (1994) two-asset lattice at step m of n: price of asset 1 for j up-moves
    (rows), of asset 2 for j, i (row, column)."""
    dt = t / n
    sq = math.sqrt(dt)
    y1 = (2 * np.arange(m + 1) - m) * sq
    e2 = (2 * np.arange(m + 1) - m) * sq
    A = S1 * np.exp((b1 - s1 * s1 / 2) * m * dt + s1 * y1)
    y2 = rho * y1[:, None] + math.sqrt(1 - rho * rho) * e2[None, :]
    B = S2 * np.exp((b2 - s2 * s2 / 2) * m * dt + s2 * y2)
    return A[:, None] + 0 * B, B


def spread_lattice(S1, S2, t, r, b1, b2, sigma1, sigma2, rho, K=None, K2=None, Q1=1, Q2=1, option=1,
                   otype="european", n=5, call=True):
    A, B = spread_nodes(S1, S2, t, b1, b2, sigma1, sigma2, rho, n, n)
    v = payoff2(option, call, A, B, Q1, Q2, K, K2)
    df = math.exp(-r * t / n)
    for m in range(n - 1, -1, -1):
        v = 0.25 * df * (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:])
        if otype == "american":
            A, B = spread_nodes(S1, S2, t, b1, b2, sigma1, sigma2, rho, n, m)
            v = np.maximum(v, payoff2(option, call, A, B, Q1, Q2, K, K2))
    return float(v[0, 0])


def spread_expectation(S1, S2, t, r, b1, b2, sigma1, sigma2, rho, K=None, K2=None, Q1=1, Q2=1, option=1,
                       n=5, call=True):
    A, B = spread_nodes(S1, S2, t, b1, b2, sigma1, sigma2, rho, n, n)
    w = stats.binom.pmf(np.arange(n + 1), n, 0.5)
    return float(math.exp(-r * t) * np.sum(np.outer(w, w) * payoff2(option, call, A, B, Q1, Q2, K, K2)))


# ----------------------------------------------------------------- spread approximation
def spread_approx(S1, S2, K, t, r, b1, b2, s1, s2, rho, Q1=1, Q2=1, call=True):
    """Kirk's approximation with carry: an exchange of asset 1 for (asset 2 + cash strike)."""
    x = Q1 * S1 * math.exp((b1 - r) * t)
    y = Q2 * S2 * math.exp((b2 - r) * t)
    k = K * math.exp(-r * t)
    F = y / (y + k)
    v = math.sqrt(s1**2 + (s2 * F) ** 2 - 2 * rho * s1 * s2 * F) * math.sqrt(t)
    d1 = (math.log(x / (y + k)) + v * v / 2) / v
    d2 = d1 - v
    z = 1 if call else -1
    return float(z * (x * N(z * d1) - (y + k) * N(z * d2)))


# ---------------------------------------------------------------------- Heston-Nandi
def hn_sigma2(lamb, omega, alpha, beta, gamma):
    g = gamma + lamb + 0.5
    return (omega + alpha) / (1 - beta - alpha * g * g)


def hn_charfn(phi, T, r, lamb, omega, alpha, beta, gamma):
    """log of E[exp(phi * log(S_T/S_0))] under the risk-neutral law, started from the
    stationary variance, phi a complex array."""
    g = gamma + lamb + 0.5
    l = -0.5
    A = np.zeros_like(phi)
    B = np.zeros_like(phi)
    for _ in range(T):
        A, B = (
            A + phi * r + B * omega - 0.5 * np.log(1 - 2 * alpha * B),
            phi * (l + g) - 0.5 * g * g + beta * B + 0.5 * (phi - g) ** 2 / (1 - 2 * alpha * B),
        )
    return A + B * hn_sigma2(lamb, omega, alpha, beta, gamma)


def hn_call(S, K, T, r, lamb, omega, alpha, beta, gamma, nodes=1200, L=None):
    """Call price, call delta and gamma by Carr-Madan/Lewis inversion along Im = -1/2 with a
    fixed Gauss-Legendre rule."""
    s2 = hn_sigma2(lamb, omega, alpha, beta, gamma)
    sd = math.sqrt(s2 * T)
    if L is None:
        L = 40.0 / sd
    # nodes crowd at the origin, where 1 / (u^2 + 1/4) varies on a scale of 1/2
    x, w = _leg(nodes)
    top = math.asinh(2 * L)
    y = 0.5 * top * (x + 1)
    u = 0.5 * np.sinh(y)
    w = 0.5 * top * w * 0.5 * np.cosh(y)
    k = math.log(S / K) + r * T
    phi = 0.5 + 1j * u
    cf = np.exp(hn_charfn(phi, T, r, lamb, omega, alpha, beta, gamma) - phi * r * T)
    den = u * u + 0.25
    base = np.exp(1j * u * k) * cf
    I0 = np.sum(w * np.real(base / den))
    # C = S - sqrt(S K) e^{-rT/2} / pi * Int ; write a(S) = sqrt(S K) e^{-rT/2}
    a = math.sqrt(S * K) * math.exp(-r * T / 2)
    price = S - a / math.pi * I0
    I1 = np.sum(w * np.real((0.5 + 1j * u) * base / den))
    delta = 1 - a / (math.pi * S) * I1
    I2 = np.sum(w * np.real((0.5 + 1j * u) * (-0.5 + 1j * u) * base / den))
    gamma_ = -a / (math.pi * S * S) * I2
    return float(price), float(delta), float(gamma_)


_legs = {}


def _leg(n):
    if n not in _legs:
        _legs[n] = np.polynomial.legendre.leggauss(n) if n <= 512 else _composite(n)
    return _legs[n]


def _composite(n):
    x, w = np.polynomial.legendre.leggauss(50)
    m = n // 50
    xs = np.concatenate([(x + 1) / m + 2 * i / m - 1 for i in range(m)])
    return xs, np.tile(w / m, m)


def hn_call_by_mixing(S, K, T, r, lamb, omega, alpha, beta, gamma, nodes=64):
    """Price straight from the GARCH definition for T = 1, 2, 3: Gauss-Hermite over the first
    T-1 shocks of the risk-neutral recursion, Black-Scholes for the last day."""
    g = gamma + lamb + 0.5
    z, w = np.polynomial.hermite_e.hermegauss(nodes)
    w = w / w.sum()
    h = np.array([hn_sigma2(lamb, omega, alpha, beta, gamma)])
    x = np.array([math.log(S)])
    p = np.array([1.0])
    for _ in range(T - 1):
        hh = np.repeat(h, nodes)
        zz = np.tile(z, len(h))
        x = np.repeat(x, nodes) + r - hh / 2 + np.sqrt(hh) * zz
        p = np.repeat(p, nodes) * np.tile(w, len(h))
        h = omega + beta * hh + alpha * (zz - g * np.sqrt(hh)) ** 2
    s = np.exp(x)
    c = gbs(s, K, 1.0, r, r, np.sqrt(h), True)
    return float(np.sum(p * c) * math.exp(-r * (T - 1)))


def hn_nll(x, lamb, omega, alpha, beta, gamma, rf):
    """Negative log-likelihood of a Heston-Nandi GARCH(1,1) path, with its variances and shocks."""
    h = np.empty(len(x))
    z = np.empty(len(x))
    h[0] = (omega + alpha) / (1 - beta - alpha * gamma**2)
    for i, v in enumerate(x):
        if i:
            h[i] = omega + beta * h[i - 1] + alpha * (z[i - 1] - gamma * math.sqrt(h[i - 1])) ** 2
        if not h[i] > 0:
            return math.nan, h, z
        z[i] = (v - rf - lamb * h[i]) / math.sqrt(h[i])
    return 0.5 * float(np.sum(np.log(2 * math.pi * h) + z * z)), h, z


def hn_path(z, lamb, omega, alpha, beta, gamma, rf):
    x = []
    h = (omega + alpha) / (1 - beta - alpha * gamma**2)
    for e in z:
        x.append(rf + lamb * h + math.sqrt(h) * e)
        h = omega + beta * h + alpha * (e - gamma * math.sqrt(h)) ** 2
    return np.array(x)
