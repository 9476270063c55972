"""Finite-difference greeks of the vanilla options against the exact ones."""
import numpy as np

from vf import api, gen, refs
from props import c01, c02

ID = "C04"
CPU = 40
CHUNK = 40
COUNTS = {"quick": 2400, "thorough": 40000}
REQUIRED = {"fdm:delta": 400, "fdm:theta": 400, "fdm:vega": 400, "fdm:gamma": 400, "fdm:lambda": 400, "fdm:rho": 100, "rho refused": 80, "class:MiltersenSchwartzOption": 100, "class:Black76Option": 100, "lambda against delta": 200, "GreeksFDM": 300, "anywhere": 900, "among the slopes": 800}
RULE = (
    "one case = one market and class; each finite-difference greek of one side is compared with the exact derivative. "
    "Non-trivial: vega above 1e-6 of the legs."
)
ASSUMPTIONS = [
    "markets with sigma*sqrt(t) >= 0.1 and t >= 0.05, where the differencing of the documented price is accurate to the tolerances (measured, with a margin of several)",
    "theta is -dV/dt, rho holds b at zero, lambda is delta*spot/price",
]


def case(rng, i, tier):
    if i % 3 == 2:  # anywhere: judged by the slopes its own prices have
        name = list(api.VANILLA)[int(rng.integers(len(api.VANILLA)))]
        while True:
            if name == "MiltersenSchwartzOption":
                P, lab, _ = c02.market(rng)
            else:
                P, lab = gen.market(rng, smin=0.01, smax=1e5, tmin=0.006, tmax=20.0, vmin=0.02, vmax=2.0, maxdev=4.0, bmode=gen.pick(rng, "zero", None, None))
            if P["t"] >= 0.006:
                return {"cls": name, "P": P, "lab": lab, "any": True, "rs": gen.sub(rng)}
    if rng.random() < 0.25:
        while True:
            P, lab, sd = c02.market(rng)
            if sd >= 0.1 and P["t"] >= 0.05 and abs(np.log(P["K"] / P["FT"])) < 2 * sd:
                return {"cls": "MiltersenSchwartzOption", "P": P, "lab": lab, "rs": gen.sub(rng)}
    name = gen.pick(rng, "GBSOption", "BlackScholesOption", "Black76Option", "GBSOption")
    while True:
        P, lab = gen.market(rng, smin=0.1, smax=1e4, tmin=0.05, tmax=5.0, vmin=0.05, vmax=1.2, maxdev=2.0, bmode=gen.pick(rng, "zero", None, None))
        if P["sigma"] * np.sqrt(P["t"]) >= 0.1:
            break
    return {"cls": name, "P": P, "lab": lab, "rs": gen.sub(rng)}


def num(f, x, h, n):
    """Richardson-extrapolated central difference of a smooth reference"""
    def d(h):
        if n == 1:
            return (f(x + h) - f(x - h)) / (2 * h)
        return (f(x + h) - 2 * f(x) + f(x - h)) / (h * h)
    return (4 * d(h / 2) - d(h)) / 3


def reference(name, P, call):
    if name != "MiltersenSchwartzOption":
        g = refs.gbs_greeks(P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"], call)
        cf, sc = np.exp((P["b"] - P["r"]) * P["t"]), refs.gbs_scale(P["S"], P["K"], P["t"], P["r"], P["b"])
        unit = {"delta": cf, "theta": sc / P["t"], "vega": sc * np.sqrt(P["t"]), "rho": sc * P["t"], "gamma": cf / (P["S"] * P["sigma"] * np.sqrt(P["t"]))}
        return g, unit, sc

    def v(k, x):
        return refs.ms_price(**{**P, k: x}, call=call)

    F = P["FT"]
    g = {"price": refs.ms_price(**P, call=call)}
    mv, cv = refs.ms_moments(P["t"], P["T"], *(P[k] for k in ("sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")))
    sd = np.sqrt(mv)
    g["delta"] = num(lambda x: v("FT", x), F, 0.02 * sd * F, 1)
    g["gamma"] = num(lambda x: v("FT", x), F, 0.05 * sd * F, 2)
    g["theta"] = -num(lambda x: v("t", x), P["t"], 1e-2 * P["t"], 1)
    g["vega"] = np.array([num(lambda x, k=k: v(k, x), P[k], 2e-3, 1) for k in ("sigmaS", "sigmaE", "sigmaF")])
    g["lambda"] = g["delta"] * F / g["price"]
    sc = P["Pt"] * (F * max(1.0, np.exp(-cv)) + P["K"])
    e = np.exp(-cv)
    h = P["t"]
    unit = {"delta": P["Pt"] * max(e, 1.0), "theta": sc / h, "gamma": P["Pt"] * e / (F * sd),
            "vega": sc * np.array([np.sqrt(h), np.sqrt(h) * max(1, h), np.sqrt(h) * max(1, h * h)])}
    return g, unit, sc


STEPS = np.array([1e-4, 1e-3, 0.01, 0.03, 0.1])


class Slopes:
    """difference quotients of the prices of newly made options"""

    def __init__(self, name, Q, call):
        self.a = name, Q, call
        self.cache = {}

    def f(self, k, x):
        if (k, x) not in self.cache:
            name, Q, call = self.a
            o = api.cls(name)(**{**Q, k: x})
            self.cache[k, x] = float(o.call() if call else o.put())
        return self.cache[k, x]

    def first(self, k):
        x = float(self.a[1][k])
        v0 = self.f(k, x)
        q = []
        for d in list(STEPS * (x if x else 0.01)) + ([1 / 252, 2 / 252] if k == "t" else []):
            if d < x or k == "r":
                a, z = self.f(k, x + d), self.f(k, x - d)
                q += [(a - z) / (2 * d), (a - v0) / d, (v0 - z) / d]
        return np.array(q)

    def second(self, k):
        x = float(self.a[1][k])
        v0 = self.f(k, x)
        return np.array([(self.f(k, x + d) - 2 * v0 + self.f(k, x - d)) / d ** 2 for d in x * np.array([0.001, 0.003, 0.01, 0.02, 0.04])])

    def ok(self, m, op, k, v, sc):
        """v lies among the quotients, or is the extrapolated quotient of these prices"""
        import numdifftools as nd

        name, Q, call = self.a
        x = float(Q[k])
        q = self.second(k) if op == "gamma" else self.first(k)
        if op == "theta":
            q = -q
        lo, hi = np.nanmin(q), np.nanmax(q)
        tol = 1e-3 * sc / (x if x and k != "r" else 1.0) * (1 / x if op == "gamma" else 1.0) * (1 if op != "theta" else 0.1) + 0.02 * np.nanmax(np.abs(q))
        if lo - tol <= v <= hi + tol:
            m.saw("among the slopes")
            return True, (lo, hi)
        y = nd.Derivative(lambda z: self.f(k, float(z)), n=2 if op == "gamma" else 1, **({"step": 1 / 252} if op == "theta" else {}))(x) * (-1 if op == "theta" else 1)
        m.saw("extrapolated slope")
        return (v == y) or abs(v - y) <= 1e-6 * (abs(y) + sc / (x or 1.0)) or (np.isnan(v) and np.isnan(y)), (lo, hi, float(y))


TOL = {"delta": 2e-4, "theta": 1e-4, "vega": 2e-5, "rho": 5e-7, "gamma": 4e-3}


def run(c, m):
    name = c["cls"]
    P = dict(c["P"])
    if name == "Black76Option":
        P["b"] = 0.0
    ms = name == "MiltersenSchwartzOption"
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P if ms else c01.params(name, P), rng)
    if o is None:
        return
    m.saw("class:" + name)
    for lb in c["lab"]:
        m.stratum(name, lb)
    call = bool(rng.random() < 0.5)
    side = "call" if call else "put"
    w = api.side(rng, call)
    g, unit, sc = reference(name, P, call)
    m.trivial = not np.max(np.abs(g["vega"])) > 1e-6 * sc
    before = dict(o.get_params())
    if ms:
        ops = {"delta": lambda: o.delta(**w), "theta": lambda: o.theta(**w), "vega": lambda: o.vega(**w), "gamma": o.gamma, "lambda": lambda: o.lamb(**w)}
    else:
        k = {"method": "fdm"}
        ops = {"delta": lambda: o.delta(**w, **k), "theta": lambda: o.theta(**w, **k), "vega": lambda: o.vega(**k),
               "gamma": lambda: o.gamma(**k), "lambda": lambda: o.lamb(**w, **k)}
        direct = c["rs"] % 4 == 0
        if direct:  # the differencing class, asked by itself
            import finoptions as fo

            m.saw("GreeksFDM")
            G = fo.GreeksFDM(o)
            ops = {"delta": lambda: G.delta(**w), "theta": lambda: G.theta(**w), "vega": lambda: G.vega(**w), "gamma": lambda: G.gamma(**w), "lambda": lambda: G.lamb(**w)}
            k = {}
        if P["b"] == 0 and direct:
            ops["rho"] = lambda: G.rho(**w)
        elif P["b"] == 0:
            ops["rho"] = lambda: o.rho(**w, **k)
        elif not direct:
            out = m.call(f"{name}.rho(fdm)", lambda: o.rho(**w, **k))
            m.saw("rho refused")
            m.check(isinstance(out.exc, ValueError), "rho with b != 0", lambda: f"finite-difference rho with cost of carry {P['b']} gave {out.value!r} / {out.exc!r}, expected a ValueError")
    got = {}
    Q = P if ms else c01.params(name, P)
    slopes = Slopes(name, Q, call) if c.get("any") else None
    wrt = {"delta": "FT" if "FT" in Q else "S", "theta": "t", "gamma": "FT" if "FT" in Q else "S", "rho": "r", "vega": "sigma"}
    for op in rng.permutation(list(ops)):
        op = str(op)
        v = m.get(f"{name}.{op}(fdm)", ops[op])
        if v is None:
            return
        got[op] = v
        m.saw("fdm:" + op)
        if slopes:
            m.saw("anywhere")
            if op == "lambda":
                p = slopes.f("t", P["t"])
                if p > 1e-6 * sc:
                    d = m.get(f"{name}.delta(fdm)", ops["delta"])
                    if d is None:
                        return
                    m.saw("lambda against delta")
                    if np.isfinite(d) or np.isfinite(v):
                        m.close(f"fdm lambda against fdm delta ({side})", v, d * Q[wrt["delta"]] / p, 1e-5 * (abs(d) + 1e-9) * Q[wrt["delta"]] / p, mech="fdm lambda")
                if p > 1e-3 * sc:
                    ok, w_ = slopes.ok(m, "delta", wrt["delta"], v * p / Q[wrt["delta"]], sc)
                    m.check(ok, "lambda slope", lambda: f"fdm lambda ({side}) is {v!r}: a delta of {v * p / Q[wrt['delta']]!r}, but the prices have slopes {w_!r}", mech="fdm lambda")
                continue
            for q, x in zip(("sigmaS", "sigmaE", "sigmaF"), v) if ms and op == "vega" else [(wrt[op], v)]:
                if Q[q] == 0 and q != "r":
                    continue
                ok, w_ = slopes.ok(m, op, q, float(np.ravel(x)[0]), sc)
                m.check(ok, op + " slope", lambda: f"fdm {op} ({side}) is {x!r}, but the option's prices have slopes in {q} of {w_!r}", mech="fdm " + op)
            continue
        if op == "lambda":
            if g["price"] > 1e-3 * sc:
                spot = P["FT"] if ms else P["S"]
                m.close(f"fdm lambda ({side})", v, g["lambda"], TOL["delta"] * unit["delta"] * spot / g["price"] + abs(g["lambda"]) * 1e-6 * sc / g["price"], mech="fdm lambda")
        else:
            m.close(f"fdm {op} ({side})", v, g[op], TOL[op] * unit[op], mech="fdm " + op)
    direct = not ms and c["rs"] % 4 == 0
    if (ms or direct) and rng.random() < 0.5:
        rep = m.get(f"{name}.greeks", (G if direct else o).greeks, **w)
        if rep is None:
            return
        m.saw("greeks()")
        if m.check(set(rep) == set(got) | ({"rho"} if direct else set()), "greeks() keys", lambda: f"greeks() reports {sorted(rep)}"):
            for k in got:
                if c.get("any") and np.all(np.isnan(got[k])) and np.all(np.isnan(rep[k])):
                    continue  # steps that leave the domain
                m.close(f"greeks()[{k}]", rep[k], got[k], 1e-9 * np.max(np.abs(got[k])) + 1e-14, mech="greeks() entry " + k)
    after = o.get_params()
    m.check(after == before, "state changed", lambda: f"parameters changed from {before} to {after} by computing greeks")
    p = m.get(f"{name}.{side}", getattr(o, side))
    if p is not None:
        m.close(f"{side} price after greeks", p, g["price"], 2e-7 * sc)
