"""Prices of the one-asset lattice options."""
import numpy as np

from vf import api, gen, refs

ID = "C11"
CPU = 20
CHUNK = 40
COUNTS = {"quick": 7000, "thorough": 160000}
REQUIRED = {f"class:{c}": 500 for c in api.TREES}
REQUIRED.update({"style:european": 1000, "style:american": 1000, "side:call": 2000, "side:put": 2000, "early exercise worth something": 500,
                 "immediate exercise": 50, "n=1": 50, "n>=50": 50, "route:set": 300, "parity": 500, "closed sum": 500})
RULE = (
    "one case = one lattice class, market, step count and exercise style, built by one route; call and put are judged. Non-trivial: "
    "a price above 1e-8 of spot plus strike."
)
ASSUMPTIONS = ["cases whose lattice weights sum to more than 1e3 in absolute value are drawn again (probabilities far outside [0,1])"]


def draw(rng, nbig):
    """a tree option: (name, P, labels, amplification)"""
    while True:
        name = api.TREES[int(rng.integers(4))]
        if rng.random() < 0.5:
            P, lab = gen.market(rng, smin=0.5, smax=2000, tmin=0.02, tmax=5.0, vmin=0.08, vmax=1.0, maxdev=2.5)
        else:
            P, lab = gen.market(rng, smin=0.01, smax=1e5, tmin=1 / 365, tmax=20.0, vmin=0.03, vmax=1.5, maxdev=3.0)
        P["type"] = gen.pick(rng, "european", "american")
        u = rng.random()
        P["n"] = 1 if u < 0.08 else int(rng.integers(2, 12)) if u < 0.55 else int(rng.integers(10, 40)) if u < 0.93 else int(rng.integers(40, nbig + 1))
        if rng.random() < 0.006:
            P["n"] = int(rng.integers(nbig, 2 * nbig + 60))
        a = amplification(name, P)
        if a < 1e3 and P["sigma"] * np.sqrt(P["t"]) * np.sqrt(2 * P["n"]) < 60:
            return name, P, lab, a


def weights(name, P):
    if name == "TrinomialTreeOption":
        return refs.trinomial_params(P["t"], P["b"], P["sigma"], P["n"])[2:]
    p = refs.lattice_params(api.KIND[name], P["t"], P["r"], P["b"], P["sigma"], P["n"])[3]
    return p, 1 - p


def amplification(name, P):
    with np.errstate(all="ignore"):
        x = np.sum(np.abs(weights(name, P))) ** P["n"]
    return x if x == x else np.inf


def reference(name, P, call):
    a = [P[k] for k in ("S", "K", "t", "r", "b", "sigma", "n")] + [P["type"] == "american", call]
    if name == "TrinomialTreeOption":
        return refs.trinomial_tree(*a)
    return refs.binomial_tree(api.KIND[name], *a)


def case(rng, i, tier):
    name, P, lab, _ = draw(rng, 120 if tier == "quick" else 200)
    return {"name": name, "P": P, "lab": lab, "rs": gen.sub(rng)}


def run(c, m):
    name, P = c["name"], c["P"]
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    S, K, t, r, b, v, n = (P[k] for k in ("S", "K", "t", "r", "b", "sigma", "n"))
    amer = P["type"] == "american"
    m.saw("class:" + name)
    m.saw("style:" + P["type"])
    if n == 1:
        m.saw("n=1")
    if n >= 50:
        m.saw("n>=50")
    for lb in c["lab"]:
        m.stratum(name[:4], P["type"][:2], lb)
    df = np.exp(-r * t)
    cf = np.exp((b - r) * t)
    tol = 1e-11 * amplification(name, P) * (S * max(1, cf) + K * max(1, df))
    got = {}
    m.trivial = True
    order = ("call", "put") if rng.random() < 0.5 else ("put", "call")
    for side in order:
        call = side == "call"
        x = m.get(f"{name}.{side}", getattr(o, side))
        if x is None:
            return
        m.saw("side:" + side)
        got[side] = x
        want = reference(name, P, call)[0][0]
        if want > 1e-8 * (S + K):
            m.trivial = False
        m.close(f"{name} {P['type']} {side}", x, want, tol)
        if not amer:
            if name != "TrinomialTreeOption" and n <= 60 and amplification(name, P) < 1.0001:
                m.saw("closed sum")
                # terminal-node sum through log-gamma weights: about 1e-12 relative to the largest term
                m.close(f"{side} terminal sum", x, refs.binomial_closed(api.KIND[name], S, K, t, r, b, v, n, call), 1e-10 * (S * max(1, cf) + K * max(1, df)))
        else:
            z = 1 if call else -1
            m.check(x >= z * (S - K) - tol, "below exercise", lambda: f"American {side} {x} is below its exercise value {z * (S - K)}")
            P2 = dict(P, type="european")
            e = reference(name, P2, call)[0][0]
            if want > e + 1e-6 * (S + K):
                m.saw("early exercise worth something")
            if abs(want - z * (S - K)) <= tol:
                m.saw("immediate exercise")
    if not amer:
        m.saw("parity")
        w = weights(name, P)
        if name == "TrinomialTreeOption":
            u = refs.trinomial_params(t, b, v, n)[1]
            mean = w[0] * u + w[1] + w[2] / u
        else:
            _, u, d, p = refs.lattice_params(api.KIND[name], t, r, b, v, n)
            mean = p * u + (1 - p) * d
        m.close("lattice parity", got["call"] - got["put"], df * (S * mean ** n - K), 10 * tol)
