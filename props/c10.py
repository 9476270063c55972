"""Bjerksund & Stensland (1993) prices and trigger prices."""
import numpy as np

from vf import api, gen, refs

ID = "C10"
CPU = 10
CHUNK = 200
COUNTS = {"quick": 36000, "thorough": 400000}
REQUIRED = {"side:call": 3000, "side:put": 3000, "beyond trigger": 300, "early exercise": 2500, "european": 1000, "route:set": 500}
RULE = (
    "one case = one market; call and put prices and trigger prices are judged. Non-trivial: a price above 1e-6 of the legs. "
    "Sides whose published formula cancels more than 1e-4 of spot plus strike are priced but only their trigger is judged."
)
ASSUMPTIONS = ["each normal probability of the formula carries 1.1e-7; the tolerance sums them with their factors"]
PROBES = {
    "overflow": ({"P": {"S": 100.0, "K": 100.0, "t": 0.5, "r": 0.05, "b": -0.04, "sigma": 0.015}, "lab": [], "rs": 1, "judge": True}, "call price: observed np.float64(nan)"),
    "trigger-below-strike": ({"P": {"S": 90.0, "K": 100.0, "t": 5.0, "r": 0.05, "b": -0.1, "sigma": 0.08}, "lab": [], "rs": 1, "judge": True}, "call is worth less than nothing"),
}


def case(rng, i, tier):
    if rng.random() < 0.4:
        P, lab = gen.market(rng, smin=0.1, smax=1e5, tmin=1 / 365, tmax=10.0, vmin=0.03, vmax=1.5, rmin=0.0, rmax=0.3, maxdev=3.0)
    else:
        P, lab = gen.market(rng, smin=1, smax=1e3, tmin=0.02, tmax=3.0, vmin=0.1, vmax=0.8, rmin=0.0, rmax=0.15, maxdev=2.5)
    if rng.random() < 0.06:
        P["K"] = P["S"] * float(np.exp(rng.uniform(-4, 4)))
        lab.append("deep")
    if rng.random() < 0.1:
        P["b"] = P["r"] * float(rng.uniform(0.8, 1.0))
    return {"P": P, "lab": lab, "rs": gen.sub(rng)}


def noise(S, X, t, r, b, v, I):
    """sum of the sizes of the formula's terms, in units of a probability"""
    beta = refs.bs93_trigger(X, t, r, b, v)[1]
    tot = 0.0
    with np.errstate(all="ignore"):
        for coef, g in (((I - X) * np.exp(-beta * np.log(I / S)), beta), (2 * S, 1.0), (2 * X, 0.0)):
            lam = (-r + g * b + 0.5 * g * (g - 1) * v * v) * t
            kap = 2 * b / v ** 2 + 2 * g - 1
            tot += coef * np.exp(lam) * (1 + np.exp(kap * np.log(I / S)))
        size = beta * (abs(np.log(I)) + abs(np.log(S))) / np.log(10)
    return tot if size < 250 else np.inf


def run(c, m):
    P = dict(c["P"])
    name = "BSAmericanApproxOption"
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    for lb in c["lab"]:
        m.stratum(lb)
    S, K, t, r, b, v = (P[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    sc = refs.gbs_scale(S, K, t, r, b)
    m.trivial = True
    for side in ("call", "put") if rng.random() < 0.5 else ("put", "call"):
        call = side == "call"
        out = m.get(f"{name}.{side}", getattr(o, side))
        if out is None:
            return
        m.saw("side:" + side)
        if not m.check(isinstance(out, dict) and set(out) == {"OptionPrice", "TriggerPrice"}, "result keys", lambda: f"{side}() returned {out!r}"):
            return
        p, trig = out["OptionPrice"], out["TriggerPrice"]
        a = (S, K, t, r, b, v) if call else (K, S, t, r - b, -b, v)
        if a[4] >= a[3]:
            m.saw("european")
            want = refs.gbs(*a)
            m.check(bool(np.isnan(trig)), "trigger of a European", lambda: f"{side} with no early exercise reports trigger {trig!r}")
            m.close(f"{side} price", p, want, 1.3e-7 * sc)
            if want > 1e-6 * sc:
                m.trivial = False
            continue
        if a[4] * t + 2 * v * np.sqrt(t) <= 0 and not c.get("judge"):
            m.saw("approximation inapplicable")
            continue
        I, _ = refs.bs93_trigger(a[1], a[2], a[3], a[4], a[5])
        if not (c.get("judge") and I < a[1]):
            m.close(f"{side} trigger", trig, I, 1e-9 * I)
        m.check(p >= -1e-3 * (S + K) or not p == p, "negative price", lambda: f"{side} is worth less than nothing: {p}")
        x = S - K if call else K - S
        if a[0] >= I * (1 + 1e-9):
            m.saw("beyond trigger")
            m.close(f"{side} price beyond trigger", p, x, 1e-12 * (S + K))
            m.trivial = False
            continue
        tol = 1.1e-7 * noise(*a, I) + 1e-10 * (S + K)
        if (not tol < 1e-4 * (S + K) or a[0] >= I * (1 - 1e-9)) and not c.get("judge"):
            m.saw("ill-conditioned")
            continue
        if c.get("judge"):
            tol = 1e-3 * (S + K)
        m.saw("early exercise")
        want = refs.flat_boundary_call(*a, I)
        m.close(f"{side} price", p, want, tol)
        if want > 1e-6 * sc:
            m.trivial = False
        m.check(p <= (S if call else K) + tol or not p == p, "above the underlying", lambda: f"{side} {p} exceeds what it can ever pay")
