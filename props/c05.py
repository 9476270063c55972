"""Implied volatility: price -> volatility -> price round trips."""
import warnings

import numpy as np

from vf import api, gen, refs
from props import c01

ID = "C05"
CPU = 60
CHUNK = 40
COUNTS = {"quick": 6000, "thorough": 45000}
REQUIRED = {"scalar": 500, "array": 200, "rgw": 100, "rgw volatility judged": 50, "verbose": 200, "array:wide solved": 20, "sigma preset": 200}
RULE = (
    "one case = one market (or array of markets) with known volatilities; the option's own price at them is inverted. "
    "Non-trivial: the inverted price has vega above 1e-6 of the legs."
)
ASSUMPTIONS = [
    "prices carry the 7.5e-8 error of the documented normal distribution, so the volatility is determined to 4e-7*legs/vega",
    "arrays are inverted within the range where the documented general-purpose root finder converges from volatility 1 "
    "(moneyness within half a standard deviation); outside it only results the solver itself reports as converged are judged",
]

# the array path ignores the solver's failure: recorded, not repaired (see DESIGN.md)
PROBES = {
    "array-unconverged": (
        {"kind": "probe", "S": 100.0, "K": [68.0, 99.0, 115.0, 88.0, 138.0], "t": 0.1, "r": 0.02, "b": 0.02, "sigma": [0.4, 0.1, 0.3, 0.3, 0.3], "rs": 1},
        "array implied volatility",
    ),
}


def case(rng, i, tier):
    u = rng.random()
    if u < 0.55:
        while True:
            P, lab = gen.market(rng, smin=0.1, smax=1e5, tmin=0.005, tmax=6.0, vmin=0.03, vmax=2.5, maxdev=1.8)
            sc = refs.gbs_scale(P["S"], P["K"], P["t"], P["r"], P["b"])
            name = gen.pick(rng, "GBSOption", "BlackScholesOption", "Black76Option")
            if name == "Black76Option":
                P["b"] = 0.0
            g = refs.gbs_greeks(P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"], True)
            if g["vega"] > 1e-3 * sc * np.sqrt(P["t"]) and abs(np.log(P["S"] / P["K"]) + P["b"] * P["t"]) < 2.0 * P["sigma"] * np.sqrt(P["t"]) + 1e-9:
                break
        return {"kind": "scalar", "cls": name, "P": P, "lab": lab, "verbose": bool(rng.random() < 0.4), "preset": bool(rng.random() < 0.4), "rs": gen.sub(rng)}
    if u < 0.85:
        n = int(gen.pick(rng, 2, 3, 5, 7, 8, int(rng.integers(2, 30))))
        wide = bool(rng.random() < 0.25)
        P, lab = gen.market(rng, smin=0.1, smax=1e3, tmin=0.05, tmax=3.0, vmin=0.1, vmax=1.0, rmin=0.0, bmode=gen.pick(rng, "zero", "r", "below"), money="atm", ints=False)
        name = gen.pick(rng, "GBSOption", "BlackScholesOption", "Black76Option")
        if name == "Black76Option":
            P["b"] = 0.0
        w = 2.5 if wide else 0.4
        which = gen.pick(rng, "K", "S", "Ksigma", "t", "sigma", "KS", "intK")
        sig = np.full(n, P["sigma"])
        if "sigma" in which:
            sig = np.exp(rng.uniform(np.log(0.1), np.log(1.0), n))
        sd = sig * np.sqrt(P["t"])
        z = rng.uniform(-w, w, n)
        F = P["S"] * np.exp(P["b"] * P["t"])
        P["sigma"] = sig
        if which in ("K", "Ksigma", "KS"):
            P["K"] = F * np.exp(sd * z)
        if which == "S":
            P["S"] = P["S"] * np.exp(sd * z)
        if which == "KS":
            P["S"] = P["S"] * np.exp(rng.uniform(-0.1, 0.1, n) * sd)
        if which == "t":
            P["t"] = P["t"] * np.exp(rng.uniform(-0.3, 0.3, n))
            P["K"] = float(F)
        if which == "intK":
            P["S"] = 100.0
            P["K"] = np.round(100.0 * np.exp(P["b"] * P["t"]) * np.exp(sd * z)).astype(int)
        return {"kind": "array", "cls": name, "P": P, "which": which, "wide": wide, "verbose": bool(wide or rng.random() < 0.4), "preset": bool(rng.random() < 0.3), "rs": gen.sub(rng)}
    from props import c08

    while True:
        P, lab = c08.market(rng, vmin=0.1, vmax=0.8)
        g = refs.gbs_greeks(P["S"], P["K"], P["t"], P["r"], P["r"], P["sigma"])
        if g["vega"] > 0.05 * P["S"] * np.sqrt(P["t"]):
            break
    return {"kind": "rgw", "P": P, "lab": lab, "verbose": bool(rng.random() < 0.4), "preset": bool(rng.random() < 0.4), "rs": gen.sub(rng)}


def invert(m, o, name, price, call, verbose, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "RollGeskeWhaleyOption":
            return m.get(f"{name}.volatility", o.volatility, price, verbose=verbose, **kw)
        side = {} if call and len(repr(price)) % 4 == 0 else {"call": call}  # the call is the default
        if verbose:
            kw = {**kw, "verbose": True}
        return m.get(f"{name}.volatility", o.volatility, price, **side, **kw)


def run(c, m):
    rng = np.random.default_rng(c["rs"])
    call = bool(rng.random() < 0.5)
    for lb in c.get("lab", [f"which:{c.get('which')}", f"wide:{c.get('wide')}"]):
        m.stratum(c["kind"], c.get("cls", ""), lb, call)
    side = "call" if call else "put"
    kind = c["kind"]
    if kind == "probe":
        C = api.cls("GBSOption")
        K, s = np.array(c["K"]), np.array(c["sigma"])
        p = m.get("GBSOption.call", C(c["S"], K, c["t"], c["r"], c["b"], s).call)
        v = m.get("GBSOption.volatility", C(c["S"], K, c["t"], c["r"], c["b"]).volatility, p)
        if v is not None:
            back = m.get("GBSOption.call", C(c["S"], K, c["t"], c["r"], c["b"], v).call)
            m.close("array implied volatility", back, p, 1e-6 * (c["S"] + K))
        return
    m.saw(kind)
    P = dict(c["P"])
    if kind == "rgw":
        name, call, side = "RollGeskeWhaleyOption", True, "call"
        Q = dict(P)
    else:
        name = c["cls"]
        Q = c01.params(name, P)
    src = api.build(m, name, Q, rng)
    if src is None:
        return
    price = m.get(f"{name}.{side}", getattr(src, side))
    if price is None:
        return
    # the object asked: without a volatility, or with an unrelated one
    A = dict(Q)
    if c["preset"]:
        A["sigma"] = 0.77 if kind != "array" else np.full(np.size(P["sigma"]), 0.77)
        m.saw("sigma preset")
    else:
        A["sigma"] = None
    o = m.get(f"{name}.__init__", lambda: api.cls(name)(**A))
    if o is None:
        return
    before = {k: np.copy(v) if isinstance(v, np.ndarray) else v for k, v in o.get_params().items()}
    kw = {}
    if kind == "scalar" and rng.random() < 0.2:
        kw = {"tol": 1e-12, "maxiter": 500}
    price0 = np.copy(price)
    res = invert(m, o, name, price, call, c["verbose"], kw)
    if res is None:
        return
    m.check(np.array_equal(price0, price), "argument changed", "the price passed to volatility() was modified")
    after = o.get_params()
    same = all(np.array_equal(np.asarray(before[k], dtype=object), np.asarray(after[k], dtype=object)) for k in before)
    m.check(same and list(before) == list(after), "state changed", lambda: f"volatility() changed the option from {before} to {after}")
    if kind == "array":
        v, okay = (res.x, bool(res.success)) if c["verbose"] else (res, True)
        if c["verbose"]:
            m.saw("verbose")
        if c["wide"]:
            m.saw("array:wide solved" if okay else "array:wide unsolved")
            if not okay:
                m.trivial = True
                return
        elif not m.check(okay, "array not converged", lambda: f"the solver gave up on an array of near-the-money options: {getattr(res, 'message', '')}"):
            return
        n = np.size(P["sigma"])
        if not m.check(np.shape(v) == (n,), "array shape", lambda: f"implied volatility of {n} options has shape {np.shape(v)}"):
            return
    else:
        if c["verbose"]:
            m.saw("verbose")
            if not m.check(hasattr(res, "root") and bool(getattr(res, "converged", False)), "verbose result", lambda: f"verbose result is {res!r}"):
                return
            v = res.root
            plain = invert(m, o, name, price, call, False, kw)
            if plain is None:
                return
            m.close("verbose root vs plain result", v, plain, 1e-12)
        else:
            v = res
    V = np.asarray(v, dtype=float)
    m.check(bool(np.all(V > 0)), "implied volatility sign", lambda: f"implied volatility {v!r} is not positive")
    # reprice with the answer, by a fresh object of the code under test
    R = dict(Q)
    R["sigma"] = v
    o2 = m.get(f"{name}.__init__", lambda: api.cls(name)(**R))
    if o2 is None:
        return
    back = m.get(f"{name}.{side}", getattr(o2, side))
    if back is None:
        return
    if kind == "rgw":
        sc = P["S"] + P["K"]
        m.close("rgw reprice", back, price, 4e-7 * sc + 4e-6)
        up = refs.rgw_call(*(P[k] for k in ("S", "K", "t", "td", "r", "D")), P["sigma"] * 1.01)[0]
        dn = refs.rgw_call(*(P[k] for k in ("S", "K", "t", "td", "r", "D")), P["sigma"] * 0.99)[0]
        slope = (up - dn) / (0.02 * P["sigma"])
        if slope > 0.02 * P["S"] * np.sqrt(P["t"]):
            m.saw("rgw volatility judged")
            m.close("rgw implied volatility", v, P["sigma"], (1e-6 * sc + 1e-5) / (0.5 * slope))
        else:
            m.trivial = True
        return
    S, K, t, r, b = (np.asarray(P[k], dtype=float) for k in ("S", "K", "t", "r", "b"))
    sc = refs.gbs_scale(S, K, t, r, b)
    vega = refs.gbs_greeks(S, K, t, r, b, np.asarray(P["sigma"]), True)["vega"]
    m.trivial = not np.max(vega / sc) > 1e-6
    m.close(f"{kind} reprice ({side})", back, np.broadcast_to(price, np.shape(back)), 1e-8 * sc)
    m.close(f"{kind} implied volatility ({side})", v, P["sigma"], np.broadcast_to(3e-8 * sc / vega + 1e-9, np.shape(v)))
