"""Kirk's approximation of spread options."""
import numpy as np
from scipy.special import ndtr

from vf import api, gen, refs

ID = "C15"
CPU = 10
CHUNK = 250
COUNTS = {"quick": 50000, "thorough": 800000}
REQUIRED = {"side:call": 8000, "side:put": 8000, "zero strike": 1500, "exchange value": 1500, "negative strike": 500, "unequal quantities": 5000, "unequal carries": 5000, "route:set": 2000, "parity": 8000, "almost hedged": 1000}
RULE = "one case = one market of two futures; call and put are judged. Non-trivial: a price above 1e-6 of the legs."
ASSUMPTIONS = ["the normal distribution of the library is good to 7.5e-8 on each leg"]
X = np.linspace(-13, 13, 1301)  # trapezoidal rule, of exponential accuracy for these integrands
W = np.exp(-X * X / 2) / np.sqrt(2 * np.pi) * (X[1] - X[0])


def market(rng):
    while True:
        S1 = gen.pick(rng, gen.logu(rng, 0.05, 1e5), 100.0)
        S2 = S1 * float(np.exp(rng.uniform(-1.0, 1.0)))
        r = gen.pick(rng, 0.0, 0.05, float(rng.uniform(-0.03, 0.2)))
        P = dict(S1=S1, S2=S2, K=0.0, t=gen.pick(rng, 0.1, 0.5, 1.0, gen.logu(rng, 0.01, 15)), r=r, b1=gen.pick(rng, 0.0, r, float(rng.uniform(-0.15, 0.2))), b2=gen.pick(rng, 0.0, r, float(rng.uniform(-0.15, 0.2))),
                 sigma1=gen.logu(rng, 0.03, 1.2), sigma2=gen.logu(rng, 0.03, 1.2), rho=gen.pick(rng, 0.0, 0.5, -0.5, 1.0, -1.0, float(rng.uniform(-1, 1)), float(rng.uniform(-1, 1))))
        if rng.random() < 0.7:
            P["Q1"], P["Q2"] = float(rng.uniform(0.2, 5)), float(rng.uniform(0.2, 5))
        gen.whole(rng, P, ("S1", "S2"))
        S1 = P["S1"]
        q1, q2 = P.get("Q1", 1), P.get("Q2", 1)
        f1 = q1 * S1 * np.exp((P["b1"] - r) * P["t"])
        f2 = q2 * S2 * np.exp((P["b2"] - r) * P["t"])
        df = np.exp(-r * P["t"])
        km = gen.pick(rng, "zero", "mid", "mid", "any", "neg")
        if km == "mid":
            P["K"] = float((f1 - f2) / df + rng.uniform(-0.2, 0.2) * f1 / df)
        elif km == "any":
            P["K"] = float(rng.uniform(0, 1.5) * f1 / df)
        elif km == "neg":
            P["K"] = float(-rng.uniform(0, 0.7) * f2 / df)
        gen.whole(rng, P, ("K",))
        hedged = rng.random() < 0.06
        if hedged:  # the two legs move almost as one
            P["rho"] = 1.0 - gen.logu(rng, 1e-9, 1e-2)
            v = P["sigma1"] * np.sqrt(2 * (1 - P["rho"]) * P["t"])
            P["K"] = float((f1 * np.exp(2 * v * rng.uniform(-1, 1)) - f2) / df)
            P["sigma2"] = float(P["sigma1"] * (f2 + P["K"] * df) / f2 * (1 + np.sqrt(1 - P["rho"]) * rng.uniform(-1, 1)))
            if not 0.02 < P["sigma2"] < 2:
                continue
        k = f2 + P["K"] * df
        if k < 0.1 * f2:
            continue
        w = f2 / k
        var = P["sigma1"] ** 2 + (P["sigma2"] * w) ** 2 - 2 * P["rho"] * P["sigma1"] * P["sigma2"] * w
        v = np.sqrt(max(var, 0) * P["t"])
        if v > 8 or not hedged and (v < 0.01 or var < 1e-4 * (P["sigma1"] + P["sigma2"] * w) ** 2) or hedged and (v < 1e-5 or var < 1e-10 * P["sigma1"] ** 2):
            continue
        if abs(np.log(f1 / k)) > 5 * v + 0.01:
            continue
        return P, (f1, f2, k, df, v)


def exchange(P):
    """E[(Q1 S1 - Q2 S2)+] by conditioning on the second asset's driver"""
    q1, q2 = P.get("Q1", 1), P.get("Q2", 1)
    t, r, rho = P["t"], P["r"], P["rho"]
    sq = np.sqrt(t)
    a = q1 * P["S1"] * np.exp((P["b1"] - r) * t + rho * P["sigma1"] * sq * X - 0.5 * (rho * P["sigma1"]) ** 2 * t)
    c = q2 * P["S2"] * np.exp((P["b2"] - r) * t + P["sigma2"] * sq * X - 0.5 * P["sigma2"] ** 2 * t)
    v = P["sigma1"] * np.sqrt(1 - rho ** 2) * sq
    d = np.log(a / c) / v
    return float(np.sum(W * (a * ndtr(d + v / 2) - c * ndtr(d - v / 2))))


def case(rng, i, tier):
    P, _ = market(rng)
    return {"P": P, "rs": gen.sub(rng)}


def run(c, m):
    P = c["P"]
    name = "SpreadApproxOption"
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    t, r, K = P["t"], P["r"], P["K"]
    q1, q2 = P.get("Q1", 1), P.get("Q2", 1)
    f1 = q1 * P["S1"] * np.exp((P["b1"] - r) * t)
    f2 = q2 * P["S2"] * np.exp((P["b2"] - r) * t)
    df = np.exp(-r * t)
    tol = 1.6e-7 * (f1 + f2 + abs(K) * df)
    m.stratum(np.sign(K), np.sign(P["rho"]), "Q" if q1 != q2 else "Q=", "b" if P["b1"] != P["b2"] else "b=", gen.band(t, (0.2, 1, 5)))
    m.saw("almost hedged", 1 - 0.01 <= P["rho"] < 1)
    if q1 != q2:
        m.saw("unequal quantities")
    if P["b1"] != P["b2"]:
        m.saw("unequal carries")
    m.trivial = True
    got = {}
    for side in ("call", "put") if rng.random() < 0.5 else ("put", "call"):
        x = m.get(f"{name}.{side}", getattr(o, side))
        if x is None:
            return
        m.saw("side:" + side)
        got[side] = x
        want = refs.kirk(**P, call=side == "call")
        m.close(f"Kirk {side}", x, want, tol)
        if want > 1e-6 * (f1 + f2):
            m.trivial = False
    m.saw("parity")
    m.close("spread parity", got["call"] - got["put"], f1 - f2 - K * df, 2 * tol)
    if K < 0:
        m.saw("negative strike")
    if K == 0:
        m.saw("zero strike")
        v = P["sigma1"] * np.sqrt((1 - P["rho"] ** 2) * t)
        s = np.sqrt(t) * max(abs(P["rho"]) * P["sigma1"], P["sigma2"])
        # smooth enough for the nodes of exchange()
        if v > 0.25 * s and s < 2:
            m.saw("exchange value")
            m.close("exchange value", got["call"], exchange(P), tol + 1e-8 * (f1 + f2))
