"""Independent reference models.

Nothing here imports finoptions.  Every function computes, from first
principles (exact normal distribution, quadrature, direct lattice sums), the
quantity that the corresponding finoptions model promises.
"""
import numpy as np
from scipy import integrate, optimize, special

ndtr = special.ndtr
SQRT2PI = np.sqrt(2 * np.pi)


def npdf(x):
    return np.exp(-0.5 * np.asarray(x, float) ** 2) / SQRT2PI


# --------------------------------------------------------------------------
# European, lognormal
# --------------------------------------------------------------------------
def black(F, K, sd, df, call=True):
    """Discounted expectation of a vanilla payoff on a lognormal with forward F
    and total standard deviation sd (exact normal distribution)."""
    d1 = np.log(F / K) / sd + sd / 2
    d2 = d1 - sd
    if call:
        return df * (F * ndtr(d1) - K * ndtr(d2))
    return df * (K * ndtr(-d2) - F * ndtr(-d1))


def gbs(S, K, t, r, b, sigma, call=True):
    return black(S * np.exp(b * t), K, sigma * np.sqrt(t), np.exp(-r * t), call)


def gbs_scale(S, K, t, r, b):
    """size of the two present-value legs; the unit in which errors of an
    approximate normal distribution show up in a price"""
    return S * np.exp((b - r) * t) + K * np.exp(-r * t)


def gbs_greeks(S, K, t, r, b, sigma, call=True):
    """Greeks of the generalised Black-Scholes value (Haug's conventions)."""
    sq = np.sqrt(t)
    d1 = (np.log(S / K) + (b + sigma * sigma / 2) * t) / (sigma * sq)
    d2 = d1 - sigma * sq
    cf = np.exp((b - r) * t)
    df = np.exp(-r * t)
    z = 1.0 if call else -1.0
    n1 = npdf(d1)
    price = gbs(S, K, t, r, b, sigma, call)
    delta = z * cf * ndtr(z * d1)
    gamma = cf * n1 / (S * sigma * sq)
    vega = S * cf * n1 * sq
    # theta = - dV/dt
    theta = (
        -S * cf * n1 * sigma / (2 * sq)
        - z * (b - r) * S * cf * ndtr(z * d1)
        - z * r * K * df * ndtr(z * d2)
    )
    # Haug: b moves one for one with r unless b == 0 (futures)
    rho = np.where(np.asarray(b) != 0, z * t * K * df * ndtr(z * d2), -t * price)
    lam = delta * S / price
    cofc = z * t * S * cf * ndtr(z * d1)
    return {
        "delta": delta,
        "theta": theta,
        "vega": vega,
        "rho": rho,
        "lambda": lam,
        "gamma": gamma,
        "CofC": cofc,
        "price": price,
    }


# --------------------------------------------------------------------------
# Miltersen-Schwartz
# --------------------------------------------------------------------------
def ms_moments(t, T, sS, sE, sF, rSE, rSF, rEF, kE, kF):
    """Variance of ln F_t(T) and its covariance with the bond return, by
    Gauss-Legendre quadrature of the instantaneous volatilities."""
    x, w = np.polynomial.legendre.leggauss(60)
    u = 0.5 * t * (x + 1)
    w = 0.5 * t * w
    hE = sE * -np.expm1(-kE * (T - u)) / kE
    hF = sF * -np.expm1(-kF * (T - u)) / kF
    hFt = sF * -np.expm1(-kF * (t - u)) / kF
    var = (
        sS ** 2
        + hF ** 2
        + hE ** 2
        + 2 * sS * hF * rSF
        - 2 * sS * hE * rSE
        - 2 * hE * hF * rEF
    )
    cov = hFt * (sS * rSF + hF - hE * rEF)
    return float(np.sum(w * var)), float(np.sum(w * cov))


def ms_price(Pt, FT, K, t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF, call=True):
    v, c = ms_moments(t, T, sigmaS, sigmaE, sigmaF, rhoSE, rhoSF, rhoEF, KappaE, KappaF)
    F = FT * np.exp(-c)
    return black(F, K, np.sqrt(v), Pt, call)


# --------------------------------------------------------------------------
# Roll-Geske-Whaley by quadrature over the ex-dividend date
# --------------------------------------------------------------------------
_GLX, _GLW = np.polynomial.legendre.leggauss(64)


def _piecewise_gl(f, pts):
    tot = 0.0
    for a, b in zip(pts[:-1], pts[1:]):
        if b > a:
            x = 0.5 * (b - a) * _GLX + 0.5 * (a + b)
            tot += 0.5 * (b - a) * np.sum(_GLW * f(x))
    return tot


def rgw_call(S, K, t, td, r, D, sigma):
    """American call with one escrowed cash dividend: at td the holder takes
    the better of exercising cum-dividend and keeping the ex-dividend call."""
    Sx = S - D * np.exp(-r * td)
    tau = t - td
    mu = np.log(Sx) + (r - sigma ** 2 / 2) * td
    sd = sigma * np.sqrt(td)

    def hold(x):
        return gbs(x, K, tau, r, r, sigma)

    def g(logx):
        return hold(np.exp(logx)) - np.exp(logx) - D + K

    # critical ex-dividend price (exists iff D > K(1-exp(-r tau)))
    crit = None
    if D > K * (-np.expm1(-r * tau)):
        # g decreases from K - D (x -> 0) to K(1-exp(-r tau)) - D < 0
        base = np.log(K)
        if D >= K:
            crit = -np.inf
        else:
            lo = base - 60.0
            hi = base
            while g(hi) >= 0 and hi < base + 80:
                lo, hi = hi, hi + 0.25
            if g(hi) < 0 <= g(lo):
                crit = optimize.brentq(g, lo, hi, xtol=1e-14, rtol=1e-14)

    def f(z):
        x = np.exp(mu + sd * z)
        v = hold(x)
        if crit is not None:
            v = np.where(np.log(x) > crit, x + D - K, v)
        return v * npdf(z)

    lim = 9.0 + sd
    pts = sorted({-9.0, lim, *np.linspace(-9, lim, 25)[1:-1]})
    extra = [(np.log(K) - mu) / sd]
    if crit is not None:
        extra.append((max(crit, -1e3) - mu) / sd)
    # resolve the kink of hold() near K when tau is tiny
    w = sigma * np.sqrt(tau) / sd
    for m in (-8, -4, -2, -1, 1, 2, 4, 8):
        extra.append((np.log(K) - mu) / sd + m * w)
    pts = sorted(set(pts) | {e for e in extra if -9 < e < lim})
    return np.exp(-r * td) * _piecewise_gl(f, pts), crit


# --------------------------------------------------------------------------
# Barone-Adesi & Whaley, Bjerksund & Stensland 1993
# --------------------------------------------------------------------------
def baw(S, K, t, r, b, sigma, call=True):
    """Quadratic approximation with the critical price found by bisection.
    Returns (price, critical price)."""
    if call and b >= r:
        return gbs(S, K, t, r, b, sigma, True), np.inf
    z = 1.0 if call else -1.0
    M = 2 * r / sigma ** 2
    N = 2 * b / sigma ** 2
    k = -np.expm1(-r * t)
    q = (-(N - 1) + z * np.sqrt((N - 1) ** 2 + 4 * M / k)) / 2
    cf = np.exp((b - r) * t)

    def d1(x):
        return (np.log(x / K) + (b + sigma ** 2 / 2) * t) / (sigma * np.sqrt(t))

    def h(y):
        x = K * np.exp(y)
        lhs = z * (x - K)
        rhs = gbs(x, K, t, r, b, sigma, call) + z * (1 - cf * ndtr(z * d1(x))) * x / q
        return (lhs - rhs) / x

    if call:
        lo, hi = 0.0, 0.05
        while h(hi) < 0:
            lo = hi
            hi *= 1.7
            if hi > 200:
                return gbs(S, K, t, r, b, sigma, True), np.inf
    else:
        hi, lo = 0.0, -0.05
        while h(lo) < 0:
            hi = lo
            lo *= 1.7
            if lo < -200:
                return gbs(S, K, t, r, b, sigma, False), 0.0
    y = optimize.brentq(h, lo, hi, xtol=1e-15, rtol=8.9e-16)
    sk = K * np.exp(y)
    if z * (S - sk) >= 0:
        return z * (S - K), sk
    A = z * (sk / q) * (1 - cf * ndtr(z * d1(sk)))
    return gbs(S, K, t, r, b, sigma, call) + A * (S / sk) ** q, sk


def bs93_trigger(K, t, r, b, sigma):
    beta = (0.5 - b / sigma ** 2) + np.sqrt((b / sigma ** 2 - 0.5) ** 2 + 2 * r / sigma ** 2)
    binf = beta / (beta - 1) * K
    b0 = max(K, r / (r - b) * K)
    h = -(b * t + 2 * sigma * np.sqrt(t)) * b0 / (binf - b0)
    return b0 + (binf - b0) * (1 - np.exp(h)), beta


def flat_boundary_call(S, K, t, r, b, sigma, I):
    """Value of 'exercise the first time the asset reaches I, else at expiry',
    from the reflection principle: knock-out call + rebate at hitting time."""
    if S >= I:
        return S - K
    # up-and-out call, barrier I (continuous, carry b)
    v = sigma * np.sqrt(t)
    mu = (b - sigma ** 2 / 2) / sigma ** 2
    lam = np.sqrt(mu ** 2 + 2 * r / sigma ** 2)
    cf = np.exp((b - r) * t)
    df = np.exp(-r * t)

    def asset(d):  # value of asset if S_T>k and max<I pieces
        return ndtr(d)

    def seg(k):
        # E[df * (S_T - K) ; S_T > k] and its image
        x = np.log(S / k) / v + (1 + mu) * v
        y = np.log(I * I / (S * k)) / v + (1 + mu) * v
        a = S * cf * ndtr(x) - K * df * ndtr(x - v)
        im = S * cf * (I / S) ** (2 * (mu + 1)) * ndtr(y) - K * df * (I / S) ** (2 * mu) * ndtr(y - v)
        return a, im

    aK, imK = seg(K)
    aI, imI = seg(I)
    out = (aK - aI) - (imK - imI)
    z = np.log(I / S) / v + lam * v
    reb = (I - K) * (
        (I / S) ** (mu + lam) * ndtr(-z) + (I / S) ** (mu - lam) * ndtr(-z + 2 * lam * v)
    )
    return out + reb


def bs93(S, K, t, r, b, sigma):
    if b >= r:
        return gbs(S, K, t, r, b, sigma, True), np.nan
    I, _ = bs93_trigger(K, t, r, b, sigma)
    return flat_boundary_call(S, K, t, r, b, sigma, I), I


# --------------------------------------------------------------------------
# one-asset lattices
# --------------------------------------------------------------------------
def lattice_params(kind, t, r, b, sigma, n):
    dt = t / n
    if kind == "CRR":
        u = np.exp(sigma * np.sqrt(dt))
        d = np.exp(-sigma * np.sqrt(dt))
        p = (np.exp(b * dt) - d) / (u - d)
    elif kind == "JR":
        m = (b - sigma ** 2 / 2) * dt
        u = np.exp(m + sigma * np.sqrt(dt))
        d = np.exp(m - sigma * np.sqrt(dt))
        p = 0.5
    elif kind == "TIAN":
        M = np.exp(b * dt)
        V = np.exp(sigma ** 2 * dt)
        root = np.sqrt(V * V + 2 * V - 3)
        u = 0.5 * M * V * (V + 1 + root)
        d = 0.5 * M * V * (V + 1 - root)
        p = (M - d) / (u - d)
    else:
        raise ValueError(kind)
    return dt, u, d, p


def binomial_tree(kind, S, K, t, r, b, sigma, n, american, call):
    """Node values as a list by time level; level m is indexed by the number of
    DOWN moves (0 = all up), matching the documented tree layout."""
    dt, u, d, p = lattice_params(kind, t, r, b, sigma, n)
    df = np.exp(-r * dt)
    z = 1.0 if call else -1.0
    lu, ld = np.log(u), np.log(d)

    def payoff(m):
        down = np.arange(m + 1)
        return z * (S * np.exp((m - down) * lu + down * ld) - K)

    v = np.maximum(payoff(n), 0.0)
    levels = [v]
    for m in range(n - 1, -1, -1):
        v = df * (p * v[:-1] + (1 - p) * v[1:])
        if american:
            v = np.maximum(v, payoff(m))
        levels.append(v)
    return levels[::-1]


def binomial_closed(kind, S, K, t, r, b, sigma, n, call):
    """European price as a single binomial sum (no recursion)."""
    dt, u, d, p = lattice_params(kind, t, r, b, sigma, n)
    j = np.arange(n + 1)
    logc = special.gammaln(n + 1) - special.gammaln(j + 1) - special.gammaln(n - j + 1)
    w = np.exp(logc) * p ** j * (1 - p) ** (n - j)
    z = 1.0 if call else -1.0
    pay = np.maximum(z * (S * np.exp(j * np.log(u) + (n - j) * np.log(d)) - K), 0)
    return np.exp(-r * t) * np.sum(w * pay)


def trinomial_params(t, b, sigma, n):
    dt = t / n
    u = np.exp(sigma * np.sqrt(2 * dt))
    a = np.exp(b * dt / 2)
    e = np.exp(sigma * np.sqrt(dt / 2))
    pu = ((a - 1 / e) / (e - 1 / e)) ** 2
    pd = ((e - a) / (e - 1 / e)) ** 2
    return dt, u, pu, 1 - pu - pd, pd


def trinomial_tree(S, K, t, r, b, sigma, n, american, call):
    """Node values by level; level m has 2m+1 nodes, index 0 = highest price."""
    dt, u, pu, pm, pd = trinomial_params(t, b, sigma, n)
    df = np.exp(-r * dt)
    z = 1.0 if call else -1.0
    lu = np.log(u)

    def payoff(m):
        k = np.arange(m, -m - 1, -1)
        return z * (S * np.exp(k * lu) - K)

    v = np.maximum(payoff(n), 0.0)
    levels = [v]
    for m in range(n - 1, -1, -1):
        v = df * (pu * v[:-2] + pm * v[1:-1] + pd * v[2:])
        if american:
            v = np.maximum(v, payoff(m))
        levels.append(v)
    return levels[::-1]


# --------------------------------------------------------------------------
# two-asset lattice (Rubinstein)
# --------------------------------------------------------------------------
def spread_payoff(option, z, s1, s2, Q1, Q2, K, K2):
    a, c = Q1 * s1, Q2 * s2
    if option == 1:
        x = z * (a - c - K)
    elif option == 2:
        x = z * (np.maximum(a, c) - K)
    elif option == 3:
        x = z * (np.minimum(a, c) - K)
    elif option == 4:
        x = np.maximum(z * (a - K), z * (c - K2))
    elif option == 5:
        x = np.maximum(z * (a - K), z * (K2 - c))
    elif option == 6:
        x = z * (a + c - K)
    elif option == 7:
        x = z * (c - a)
    elif option == 8:
        x = z * (a / c - K)
    elif option == 9:
        x = z * (a * c - K)
    else:
        raise ValueError(option)
    return np.maximum(x, 0.0)


def spread_tree(S1, S2, t, r, b1, b2, sigma1, sigma2, rho, K=None, K2=None, Q1=1, Q2=1,
                option=1, otype="european", n=5, call=True):
    dt = t / n
    z = 1.0 if call else -1.0
    sq = np.sqrt(dt)
    mu1 = b1 - sigma1 ** 2 / 2
    mu2 = b2 - sigma2 ** 2 / 2

    def pay(m):
        y1 = (2 * np.arange(m + 1) - m) * sq
        y2 = (2 * np.arange(m + 1) - m) * sq
        s1 = S1 * np.exp(mu1 * m * dt + sigma1 * y1)[:, None]
        s2 = S2 * np.exp(mu2 * m * dt + sigma2 * (rho * y1[:, None] + np.sqrt(1 - rho ** 2) * y2[None, :]))
        return spread_payoff(option, z, s1, s2, Q1, Q2, K, K2) * np.ones((m + 1, m + 1))

    v = pay(n)
    df = np.exp(-r * dt)
    for m in range(n - 1, -1, -1):
        v = df * 0.25 * (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:])
        if otype == "american":
            v = np.maximum(v, pay(m))
    return float(v[0, 0])


def kirk(S1, S2, K, t, r, b1, b2, sigma1, sigma2, rho, Q1=1, Q2=1, call=True):
    f1 = Q1 * S1 * np.exp((b1 - r) * t)
    f2 = Q2 * S2 * np.exp((b2 - r) * t)
    k = f2 + K * np.exp(-r * t)
    w = f2 / k
    s = np.sqrt(sigma1 ** 2 + (sigma2 * w) ** 2 - 2 * rho * sigma1 * sigma2 * w)
    return black(f1, k, s * np.sqrt(t), 1.0, call)


# --------------------------------------------------------------------------
# Heston-Nandi
# --------------------------------------------------------------------------
def hn_risk_neutral(lamb, omega, alpha, beta, gamma):
    g = gamma + lamb + 0.5
    h0 = (omega + alpha) / (1 - beta - alpha * g * g)
    return g, h0


def hn_logmgf(phi, omega, alpha, beta, g, t, r, h1):
    """log E[exp(phi * ln(S_T/S_0))] over t daily steps (first variance h1)."""
    phi = np.asarray(phi, complex)
    A = np.zeros_like(phi)
    B = np.zeros_like(phi)
    for _ in range(t):
        den = 1 - 2 * alpha * B
        A, B = (
            A + phi * r + B * omega - 0.5 * np.log(den),
            -phi / 2 + beta * B + (0.5 * phi ** 2 - 2 * alpha * g * B * phi + alpha * B * g * g) / den,
        )
    # derivation: h' = omega + beta h + alpha (z - g sqrt h)^2 ;
    # E exp(phi sqrt h z + B alpha (z-g sqrt h)^2) for z ~ N(0,1)
    return A + B * h1


def _hn_price_panels(S, K, t, r, omega, alpha, beta, g, h0, damp=1.5, deriv=0):
    """Carr-Madan style damped inversion; returns call price / delta / gamma."""
    k = np.log(K / S)
    x, w = np.polynomial.legendre.leggauss(32)
    tot = 0.0
    # panel width adapted to the total standard deviation and log-moneyness
    sd = np.sqrt(max(t * h0, 1e-12))
    width = min(2.0 / sd, 12.0 / max(abs(k), 1e-9))
    a = 0.0
    scale = (S, 1.0, 1.0 / S)[deriv]
    for i in range(4000):
        wid = min(width, max(1.0, a))  # graded: resolve the 1/(z(z-1)) peak at 0
        u = a + wid * 0.5 * (x + 1)
        ww = 0.5 * wid * w
        z = damp + 1 + 1j * u  # exponent of S_T
        psi = np.exp(hn_logmgf(z, omega, alpha, beta, g, t, r, h0)) / (z * (z - 1))
        # value = S * e^{-rt} * (1/pi) int Re( e^{-(z-1)k} psi ) du
        base = np.exp(-(z - 1) * k) * psi
        if deriv == 0:
            f = S * base
        elif deriv == 1:
            f = z * base
        else:
            f = z * (z - 1) * base / S
        term = np.sum(ww * f.real)
        tot += term
        a += wid
        if a * sd > 12 and np.max(np.abs(f)) * a < 1e-13 * scale:
            break
    else:
        return np.nan
    return np.exp(-r * t) * tot / np.pi


def hn_call(S, K, t, r, lamb, omega, alpha, beta, gamma, deriv=0):
    g, h0 = hn_risk_neutral(lamb, omega, alpha, beta, gamma)
    return _hn_price_panels(S, K, t, r, omega, alpha, beta, g, h0, deriv=deriv)
