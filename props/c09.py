"""Barone-Adesi & Whaley prices against the quadratic approximation."""
import numpy as np

from vf import api, gen, refs

ID = "C09"
CPU = 4
CHUNK = 100
COUNTS = {"quick": 12000, "thorough": 250000}
REQUIRED = {"side:call": 3000, "side:put": 3000, "exercised": 400, "premium": 1500, "call b>=r": 800, "route:set": 500}
RULE = (
    "one case = one market; call and put are priced under a CPU-time watchdog and judged. Non-trivial: a price above 1e-6 of "
    "the legs."
)
ASSUMPTIONS = [
    "the documented search tolerance of 1e-6 of the strike is allowed for",
    "positive rates: the approximation divides by r (r = 0 is a recorded finding)",
]
PROBES = {
    "zero-rate": ({"P": {"S": 100.0, "K": 100.0, "t": 0.5, "r": 0.0, "b": -0.02, "sigma": 0.25}, "lab": [], "rs": 1}, "observed np.float64(nan)"),
}


def case(rng, i, tier):
    wide = rng.random() < 0.4
    if wide:
        P, lab = gen.market(rng, smin=0.05, smax=1e5, tmin=1 / 365, tmax=30.0, vmin=0.01, vmax=3.0, rmin=1e-4, rmax=0.3, maxdev=3.0)
    else:
        P, lab = gen.market(rng, smin=1, smax=1e3, tmin=0.02, tmax=3.0, vmin=0.05, vmax=0.8, rmin=0.005, rmax=0.15, maxdev=2.5)
    if P["r"] <= 0:
        P["r"] = gen.pick(rng, 0.03, 1e-4, 1e-3)
    if rng.random() < 0.15:  # near the perpetual regime
        P["K"] = P["S"] * float(np.exp(rng.uniform(-1, 1)))
        P["r"] = float(rng.uniform(0.05, 0.3))
        P["b"] = float(rng.uniform(-0.2, 0.3))
    if rng.random() < 0.06:
        P["K"] = P["S"] * float(np.exp(rng.uniform(-4, 4)))
        lab.append("deep")
    return {"P": P, "lab": lab + ["wide" if wide else "usual"], "rs": gen.sub(rng)}


def run(c, m):
    P = dict(c["P"])
    name = "BAWAmericanApproxOption"
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    for lb in c["lab"]:
        m.stratum(lb)
    S, K, t, r, b, v = (P[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    sc = refs.gbs_scale(S, K, t, r, b)
    m.trivial = True
    for side in ("call", "put") if rng.random() < 0.5 else ("put", "call"):
        call = side == "call"
        p = m.get(f"{name}.{side}", getattr(o, side))
        if p is None:
            return
        m.saw("side:" + side)
        if r > 0:
            want, sk = refs.baw(S, K, t, r, b, v, call)
        else:  # no rate: never exercise a put early; the call like any other
            want, sk = refs.gbs(S, K, t, r, b, v, call), np.nan
        tol = 1.6e-7 * sc + 2.5e-6 * K
        m.close(f"{side} price", p, want, tol)
        if want > 1e-6 * sc:
            m.trivial = False
        z = 1.0 if call else -1.0
        if call and b >= r:
            m.saw("call b>=r")
        elif z * (S - sk) >= 0:
            m.saw("exercised")
        else:
            m.saw("premium")
        if not r > 0:
            continue
        eur = refs.gbs(S, K, t, r, b, v, call)
        m.check(p >= eur - tol, "below european", lambda: f"{side} {p} below the European value {eur}")
        if not (call and b >= r):
            m.check(p >= z * (S - K) - tol, "below exercise value", lambda: f"{side} {p} below the exercise value {z * (S - K)}")
