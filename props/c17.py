"""Heston-Nandi prices."""
import numpy as np

from vf import gen, refs

ID = "C17"
CPU = 60
CHUNK = 1
COUNTS = {"quick": 420, "thorough": 9000}
REQUIRED = {"side:call": 180, "side:put": 180, "t=1": 3, "t>60": 10, "t>252": 5, "in the money": 50, "out of the money": 50, "constant variance limit": 15, "simulated": 8, "bounds": 360, "negative asymmetry": 25, "asked again": 150}
RULE = "one case = one stationary parameter set, maturity and strike; call and put are judged, in either order. Non-trivial: a price above 1e-6 of the spot."
ASSUMPTIONS = [
    "the library integrates to 1.5e-8 absolute and relative; tolerance 2e-8 of the spot plus 1e-7; deviations up to 1e-5 of the spot at an isolated spot price, with both neighbours exact, are the quadrature stopping early and are counted as such",
    "total standard deviation between 0.01 and 1.2, strikes within three of them",
]


def market(rng, tmax=250, sdmin=0.01, quick=False, long=None):
    while True:
        vol = gen.logu(rng, 0.05, 1.1)
        h0 = vol ** 2 / 252
        p = float(gen.pick(rng, rng.uniform(0.2, 0.9), rng.uniform(0.85, 0.985)))
        beta = p * float(gen.pick(rng, rng.uniform(0.2, 1.0), rng.uniform(0.8, 1.0)))
        share = float(rng.uniform(0.05, 0.95))
        alpha = share * h0 * (1 - p)
        omega = h0 * (1 - p) - alpha
        g = np.sqrt((p - beta) / alpha) * gen.pick(rng, 1, 1, 1, -1)
        lamb = float(gen.pick(rng, -0.5, rng.uniform(-1, 6)))
        u = rng.random()
        t = 1 if u < 0.04 else int(rng.integers(2, 40)) if u < 0.6 else int(rng.integers(40, 120)) if u < 0.93 else int(rng.integers(min(120, tmax), tmax + 1))
        if quick and rng.random() < 0.7:
            t = min(t, int(rng.integers(2, 30)))
        if long:
            t = int(rng.integers(*long))
        r = float(gen.pick(rng, 0.0, 0.05 / 252, rng.uniform(-1e-4, 5e-4)))
        sd = np.sqrt(h0 * t)
        if not sdmin <= sd <= 1.2:
            continue
        S = gen.pick(rng, 100.0, gen.logu(rng, 0.5, 2e4))
        K = float(S * np.exp(r * t + sd * gen.pick(rng, 0.0, rng.uniform(-1, 1), rng.uniform(-3, 3))))
        return gen.whole(rng, dict(S=S, K=K, t=t, r=r, lamb=lamb, omega=float(omega), alpha=float(alpha), beta=float(beta), gamma=float(g - lamb - 0.5)), ("S", "K"))


def simulate(P, seed, n=40000):
    """discounted call payoff under the risk-neutral dynamics, with the asset itself as control"""
    rng = np.random.default_rng(seed)
    g, h0 = refs.hn_risk_neutral(P["lamb"], P["omega"], P["alpha"], P["beta"], P["gamma"])
    h = np.full(n, h0)
    x = np.full(n, np.log(P["S"]))
    for _ in range(P["t"]):
        z = rng.standard_normal(n // 2)
        z = np.concatenate((z, -z))
        x += P["r"] - 0.5 * h + np.sqrt(h) * z
        h = P["omega"] + P["alpha"] * (z - g * np.sqrt(h)) ** 2 + P["beta"] * h
    df = np.exp(-P["r"] * P["t"])
    pay = df * np.maximum(np.exp(x) - P["K"], 0)
    a = df * np.exp(x) - P["S"]
    c = np.cov(pay, a)
    y = pay - c[0, 1] / c[1, 1] * a
    y = 0.5 * (y[: n // 2] + y[n // 2:])
    return float(np.mean(y)), float(np.std(y) / np.sqrt(n // 2))


def case(rng, i, tier):
    quick = tier == "quick"
    P = market(rng, 130 if quick else 400, quick=quick, long={17: (120, 420)}.get(i % 20))
    c = {"P": P, "rs": gen.sub(rng)}
    if i % 10 == 3:  # variance (almost) without variance
        g, h0 = refs.hn_risk_neutral(P["lamb"], P["omega"], P["alpha"], P["beta"], P["gamma"])
        P["alpha"] = h0 * 1e-9
        P["gamma"] = float(rng.uniform(-30, 30))
        P["omega"] = h0 * (1 - P["beta"])
        c["limit"] = True
    if P["t"] <= 45 and rng.random() < 0.7:
        c["again"] = True
    if i % 16 == 5:
        c["simulate"] = gen.sub(rng)
        _, h0 = refs.hn_risk_neutral(*[P[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")])
        P["K"] = float(P["S"] * np.exp(P["r"] * P["t"] + np.sqrt(h0 * P["t"]) * rng.uniform(-1, 1)))  # where a sample has weight
    return c


def make(m, P, rng):
    import finoptions as fo

    C = fo.heston_nandi_options.HestonNandiOption
    if rng.random() < 0.5:
        return m.get("HestonNandiOption.__init__", lambda: C(**P))
    return m.get("HestonNandiOption.__init__", lambda: C(*[P[k] for k in ("S", "K", "t", "r", "lamb", "omega", "alpha", "beta", "gamma")]))


def judge(m, what, P, query, want, tol, loose, rng):
    """compare one answer with its reference at P; adaptive quadrature now and then stops early at an
    isolated spot price: a deviation below `loose` counts only if it is also there just beside"""

    def off(Q):
        o = make(m, Q, rng)
        x = o is not None and m.get("HestonNandiOption." + what.split()[-1], lambda: query(o))
        return None if x is None or x is False else (x, want(Q))

    r = off(P)
    if r is None:
        return None
    x, y = r
    glitch = False
    if tol < abs(x - y) <= loose:
        side = [off(dict(P, S=P["S"] * f)) for f in (0.997, 1.002)]
        if all(s is not None and abs(s[0] - s[1]) <= tol for s in side):
            m.saw("quadrature glitch")
            tol = loose
            glitch = True
    m.close(what, x, y, tol)
    return x, glitch


ASK = {"call": lambda o: o.call(), "put": lambda o: o.put(), "call delta": lambda o: o.delta(), "put delta": lambda o: o.delta(call=False), "gamma": lambda o: o.gamma()}


def again(m, P, first, rng):
    """one object asked a row of questions, another option now and then in between: `first` (answers of objects asked for nothing else) stands"""
    k = str(rng.choice(list(P)))
    Q = dict(P)
    Q[k] = {"t": P["t"] + 1 + P["t"] // 2, "r": P["r"] + 4e-4, "lamb": P["lamb"] + 2.0, "gamma": P["gamma"] * 0.6}.get(k, P[k] * {"S": 1.04, "K": 1.04, "omega": 1.5, "alpha": 0.5}.get(k, 0.8))
    if Q["beta"] + Q["alpha"] * (Q["gamma"] + Q["lamb"] + 0.5) ** 2 > 0.99:
        k, Q = "K", dict(P, K=P["K"] * 1.04)
    o, p = make(m, P, rng), make(m, Q, rng)
    if o is None or p is None:
        return
    x, y = m.get("HestonNandiOption.call", p.call), refs.hn_call(**Q)
    if x is None:
        return
    if y == y:
        m.saw("neighbour " + k)
        m.check(abs(x - y) <= 1e-5 * (Q["S"] + Q["K"]), "neighbour", lambda: f"with {k} changed from {P[k]!r} to {Q[k]!r}, the call is {x!r}, not {y!r}")
    past = []
    for k in range(int(rng.integers(3, 7))):
        q = str(rng.choice(list(first) if k % 3 else list(ASK)))
        if rng.random() < 0.2:
            m.get("HestonNandiOption", lambda: ASK[str(rng.choice(list(ASK)))](p))
        x = m.get("HestonNandiOption." + q, lambda: ASK[q](o))
        if x is None:
            return
        past.append(q)
        if q in first:
            m.saw("asked again", k > 0)
            m.check(abs(x - first[q]) <= 1e-9 * abs(first[q]) + 1e-12, "asked again", lambda: f"{q} is {x!r} after {past[:-1]} of the same object, {first[q]!r} of a fresh one")


def run(c, m):
    P = c["P"]
    rng = np.random.default_rng(c["rs"])
    S, K, t, r = P["S"], P["K"], P["t"], P["r"]
    g, h0 = refs.hn_risk_neutral(*[P[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")])
    df = np.exp(-r * t)
    tol = 2e-8 * (S + K) + 1e-7
    if t == 1:
        m.saw("t=1")
    if t > 60:
        m.saw("t>60")
    m.saw("t>252", t > 252)
    if g < 0:
        m.saw("negative asymmetry")
    m.saw("in the money" if S > K * df * (1 + 1e-9) else "out of the money")
    m.stratum(gen.band(t, (1, 20, 60, 120)), gen.band(h0 * 252, (0.02, 0.06, 0.15)), np.sign(g), gen.band(np.log(S / K / df) / np.sqrt(h0 * t), (-1.5, -0.5, 0.5, 1.5)))
    want = refs.hn_call(**P)
    if not want == want:
        m.trivial = True
        return
    got = {}
    clean = True
    for side in ("call", "put") if rng.random() < 0.5 else ("put", "call"):
        x = judge(m, f"Heston-Nandi {side}", P, lambda o: getattr(o, side)(), lambda Q: refs.hn_call(**Q) if side == "call" else refs.hn_call(**Q) - Q["S"] + K * df, tol, 1e-5 * (S + K), rng)
        if x is None:
            return
        m.saw("side:" + side)
        got[side], glitch = x
        x = got[side]
        clean = clean and not glitch
        lo = max(S - K * df, 0.0) if side == "call" else max(K * df - S, 0.0)
        hi = S if side == "call" else K * df
        m.saw("bounds")
        m.check(lo - 1e-5 * (S + K) <= x <= hi + 1e-5 * (S + K), "bounds", lambda: f"{side} {x!r} outside its arbitrage bounds [{lo}, {hi}]")
    if clean:
        m.close("parity", got["call"] - got["put"], S - K * df, 2 * tol)
    m.trivial = not max(got["call"], got["put"]) > 1e-6 * S
    if "again" in c:
        again(m, P, got, rng)
    if "limit" in c:
        m.saw("constant variance limit")
        m.close("constant variance limit", got["call"], refs.gbs(S, K, t, r, r, np.sqrt(h0), True), tol + 1e-5 * S)
    if "simulate" in c:
        m.saw("simulated")
        x, se = simulate(P, c["simulate"])
        m.close("simulation", got["call"], x, 7 * se + 1e-5 * S)
