"""Heston-Nandi delta and gamma."""
import numpy as np

from vf import gen, refs
from props import c17

ID = "C18"
CPU = 90
CHUNK = 1
COUNTS = {"quick": 180, "thorough": 6000}
REQUIRED = {"delta": 160, "gamma": 80, "side:call": 80, "side:put": 80, "quotients": 4, "t>60": 3, "t>252": 2, "index level": 10, "in the money": 20, "out of the money": 20, "asked again": 60}
RULE = "one case = one stationary parameter set, maturity and strike; delta of both sides and gamma are judged, every fifth also against quotients of observed prices. Non-trivial: a call delta between 1e-4 and 1-1e-4."
ASSUMPTIONS = ["tolerance 1e-6 on delta and on gamma times spot times total standard deviation; total standard deviation at least 0.03"]


def case(rng, i, tier):
    quick = tier == "quick"
    P = c17.market(rng, 100 if quick else 400, sdmin=0.03, quick=quick, long={14: (120, 420)}.get(i % 18))
    if rng.random() < 0.3:  # index levels
        f = gen.logu(rng, 3e3, 3e5) / P["S"]
        P["S"] *= f
        P["K"] *= f
    c = {"P": P, "rs": gen.sub(rng)}
    if i % 8 == 2:
        c["quotient"] = True
    if P["t"] <= 45 and rng.random() < 0.7:
        c["again"] = True
    return c


def run(c, m):
    P = c["P"]
    rng = np.random.default_rng(c["rs"])
    S, K, t, r = P["S"], P["K"], P["t"], P["r"]
    _, h0 = refs.hn_risk_neutral(*[P[k] for k in ("lamb", "omega", "alpha", "beta", "gamma")])
    sd = np.sqrt(h0 * t)
    df = np.exp(-r * t)
    if t > 60:
        m.saw("t>60")
    m.saw("t>252", t > 252)
    if S > 3000:
        m.saw("index level")
    m.saw("in the money" if S > K * df * (1 + 1e-9) else "out of the money")
    m.stratum(gen.band(t, (1, 20, 60, 120)), gen.band(sd, (0.06, 0.15, 0.4)), gen.band(np.log(S / K / df) / sd, (-1.5, -0.5, 0.5, 1.5)))
    d = refs.hn_call(**P, deriv=1)
    g = refs.hn_call(**P, deriv=2)
    if not d == d or not g == g:
        m.trivial = True
        return
    m.trivial = not 1e-4 < d < 1 - 1e-4
    tol = 1e-6
    first = {}
    for q in rng.permutation([gen.pick(rng, "call", "default"), "put", "gamma"]):
        if q == "gamma":
            m.saw("gamma")
            x = c17.judge(m, "gamma", P, lambda o: o.gamma(), lambda Q: refs.hn_call(**Q, deriv=2), 1e-6 / (S * sd), 1e-3 / (S * sd), rng)
            if x is not None:
                first["gamma"] = x[0]
            continue
        m.saw("delta")
        x = c17.judge(m, q + " delta", P, (lambda o: o.delta()) if q == "default" else lambda o: o.delta(call=q == "call"), lambda Q: refs.hn_call(**Q, deriv=1) - (q == "put"), tol, 1e-4, rng)
        if x is None:
            return
        x = x[0]
        first["put delta" if q == "put" else "call delta"] = x
        m.saw("side:" + ("put" if q == "put" else "call"))
        if "quotient" in c and q != "default" and t >= 10:
            def price(k):
                return m.get(f"HestonNandiOption.{q}", getattr(c17.make(m, dict(P, S=S * (1 + k * sd)), rng), q))

            f = {k: price(k) for k in (-0.08, -0.04, 0.0, 0.04, 0.08)}
            if any(v is None for v in f.values()):
                return
            noise = 3e-8 * (S + K) + 1e-7
            if any(abs(v - refs.hn_call(**dict(P, S=S * (1 + k * sd))) - (q == "put") * (K * df - S * (1 + k * sd))) > noise for k, v in f.items()):
                m.saw("inexact price, no quotient")  # judged by C17
                continue
            q1, q2 = [(f[k] - f[-k]) / (2 * k * sd * S) for k in (0.04, 0.08)]
            m.saw("quotients")
            m.close("delta quotient", x, (4 * q1 - q2) / 3, abs(q1 - q2) + 1e-3 + noise / (0.04 * sd * S))
            x = m.get("HestonNandiOption.gamma", c17.make(m, P, rng).gamma)
            q1, q2 = [(f[k] + f[-k] - 2 * f[0.0]) / (k * sd * S) ** 2 for k in (0.04, 0.08)]
            if x is not None:
                m.close("gamma quotient", x, (4 * q1 - q2) / 3, abs(q1 - q2) + 1e-2 / (S * sd) + 5 * noise / (0.04 * sd * S) ** 2)
    if "again" in c and first:
        c17.again(m, P, first, rng)
