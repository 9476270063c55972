"""Analytic greeks of the vanilla options are the sensitivities of the price."""
import numpy as np

from vf import api, gen, refs
from props import c01

ID = "C03"
CPU = 20
CHUNK = 200
COUNTS = {"quick": 20000, "thorough": 250000}
REQUIRED = {"greek:delta": 3000, "greek:theta": 3000, "greek:rho": 3000, "greek:CofC": 3000, "greeks()": 3000, "b==0": 500, "b!=0": 500}
RULE = (
    "one case = one market and class; every analytic greek of the call and of the put, and the greeks() report, is "
    "judged against the exact partial derivative. Non-trivial: vega above 1e-9 of the legs."
)
ASSUMPTIONS = [
    "conventions: theta is the decay -dV/dt; rho moves b with r unless b == 0; lambda is delta*S/price; CofC is dV/db",
    "tolerances allow 1.1e-7 for every normal probability in a formula",
]


def case(rng, i, tier):
    P, lab = gen.market(rng, maxdev=4.0, vmax=2.5)
    name = gen.pick(rng, "GBSOption", "GBSOption", "BlackScholesOption", "Black76Option")
    return {"cls": name, "P": P, "lab": lab, "rs": gen.sub(rng)}


def tolerances(P, g):
    S, K, t, r, b, v = (P[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    cf, df = np.exp((b - r) * t), np.exp(-r * t)
    e = 1.1e-7
    sc = S * cf + K * df
    return {
        "delta": e * cf,
        "theta": e * (abs(b - r) * S * cf + abs(r) * K * df) + 1e-10 * abs(g["theta"]) + 1e-12 * sc / t,
        "vega": 1e-9 * g["vega"] + 1e-13 * sc,
        "gamma": 1e-9 * g["gamma"] + 1e-14 * cf / S,
        "rho": e * t * (K * df if b != 0 else sc),
        "CofC": e * t * S * cf,
    }


def run(c, m):
    name = c["cls"]
    P = dict(c["P"])
    if name == "Black76Option":
        P["b"] = 0.0
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, c01.params(name, P), rng)
    if o is None:
        return
    for lb in c["lab"]:
        m.stratum(name, lb)
    m.saw("b==0" if P["b"] == 0 else "b!=0")
    sc = refs.gbs_scale(P["S"], P["K"], P["t"], P["r"], P["b"])
    m.trivial = True
    for call in (True, False) if rng.random() < 0.5 else (False, True):
        g = refs.gbs_greeks(P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"], call)
        tol = tolerances(P, g)
        if g["vega"] > 1e-9 * sc:
            m.trivial = False
        side = "call" if call else "put"
        got = {}
        kw = api.side(rng, call)
        ops = {
            "delta": lambda: o.delta(**kw),
            "theta": lambda: o.theta(**kw),
            "vega": lambda: o.vega(),
            "rho": lambda: o.rho(**kw),
            "lambda": lambda: o.lamb(**kw),
            "gamma": lambda: o.gamma(),
            "CofC": lambda: o.c_of_c(**kw),
        }
        for k in rng.permutation(list(ops)):
            k = str(k)
            got[k] = m.get(f"{name}.{k}", ops[k])
            if got[k] is None:
                return
            m.saw("greek:" + k)
            if k != "lambda":
                m.close(f"{side} {k}", got[k], g[k], tol[k])
        price = m.get(f"{name}.{side}", getattr(o, side))
        if price is None:
            return
        if price > 1e-6 * sc:
            m.close(f"{side} lambda*price", got["lambda"] * price, got["delta"] * P["S"], 1e-9 * abs(got["delta"] * P["S"]) + 1e-13 * sc, mech="lambda")
            lt = abs(g["lambda"]) * (2.2e-7 * sc / price) + 1.1e-7 * sc / price
            m.close(f"{side} lambda", got["lambda"], g["lambda"], 2 * lt, mech="lambda")
        rep = m.get(f"{name}.greeks", o.greeks, **kw)
        if rep is None:
            return
        m.saw("greeks()")
        if m.check(isinstance(rep, dict) and set(rep) == set(got), "greeks() keys", lambda: f"greeks() reports {sorted(rep)}"):
            for k in got:
                if np.isfinite(got[k]) or np.isfinite(rep[k]):
                    m.close(f"greeks(call={call})[{k}]", rep[k], got[k], 1e-12 * abs(got[k]), mech="greeks() entry " + k)
