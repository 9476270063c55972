"""Finite-difference greeks of American, tree and spread options against the option's own prices."""
import numpy as np

from vf import api, gen

ID = "C13"
CPU = 60
CHUNK = 8
COUNTS = {"quick": 5000, "thorough": 20000}
NAMES = api.AMERICAN + api.TREES + api.SPREADS
SMOOTH = api.AMERICAN + ["SpreadApproxOption"]
REQUIRED = {**{"class:" + n: 40 for n in NAMES}, "delta": 250, "theta": 120, "vega": 120, "rho": 120, "lambda": 250, "lambda against delta": 150, "gamma": 200, "report": 100, "call": 300, "put": 250, "gamma of a smooth price": 60, "refused": 40, "small rate": 30, "no or negative rate": 30}
RULE = "one case = one option; two or three of its greeks, or its report, are compared with difference quotients of prices of newly made options. Non-trivial: the price is above 1e-6 of the spot."
ASSUMPTIONS = [
    "a first derivative is right if it lies within 1e-4 of the spot per unit and 0.2 % of its size (lattices: 3e-4, 1 %) of the range of the difference quotients seen at steps from 1e-4 to 0.1 of the parameter: lattice prices have kinks, where no narrower answer is defined",
    "gamma is judged where the price is smooth; lattice prices are piecewise linear, there it must lie in the range of second difference quotients or equal the library's documented extrapolated quotient of the observed prices",
]
STEPS = np.array([1e-4, 1e-3, 0.01, 0.03, 0.1])


def case(rng, i, tier):
    name = NAMES[i % len(NAMES)]
    while True:
        P = api.sample(name, rng, n_max=8, spread_n=3, wide_share=0.4)
        if P["t"] - P.get("td", 0.0) > 0.02 and P["r"] > 0.002:  # several difference steps
            break
    if name == "BSAmericanApproxOption":
        P["b"] = float(min(P["b"], P["r"] - 0.002))  # its put formula is made for b < r
    if name != "SpreadApproxOption" and rng.random() < 0.3:
        d = P.get("b", 0.0) - P["r"]
        P["r"] = gen.logu(rng, 0.005, 0.03)  # where wide steps leave the domain
        if "b" in P and name in ("BAWAmericanApproxOption", "BSAmericanApproxOption"):
            P["b"] = float(max(-0.04, P["r"] + d))
    if name not in api.AMERICAN and rng.random() < 0.12:
        P["r"] = float(gen.pick(rng, 0.0, rng.uniform(-0.04, 0.0)))
    return {"cls": name, "P": P, "rs": gen.sub(rng)}


def price(name, P, call):
    o = api.cls(name)(**P)
    return float(np.ravel(api.price_of(name, o.call() if call else o.put()))[0])


def run(c, m):
    name, P = c["cls"], c["P"]
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    two = name in api.SPREADS
    call = name == "RollGeskeWhaleyOption" or bool(rng.random() < 0.5)
    side = "call" if call else "put"
    kw = {} if name == "RollGeskeWhaleyOption" else api.side(rng, call)
    sided = dict.fromkeys(("delta", "theta", "vega", "rho", "lambda", "gamma", "greeks"), kw)
    if name == "SpreadApproxOption":
        sided["vega"] = sided["gamma"] = {}
    cache = {}

    def F(k):
        def f(x):
            if (k, float(x)) not in cache:
                cache[k, float(x)] = price(name, {**P, k: float(x)}, call)
            return cache[k, float(x)]

        return f

    v0 = F("t")(P["t"])
    s0 = P["S1"] * P["Q1"] + P["S2"] * P["Q2"] if two else P["S"]
    if P.get("option") == 9:
        s0 = P["S1"] * P["Q1"] * P["S2"] * P["Q2"]
    if P.get("option") == 8:
        s0 = P["S1"] * P["Q1"] / P["S2"] / P["Q2"]
    m.trivial = not v0 > 1e-6 * s0
    m.saw("class:" + name)
    m.saw(side)
    m.saw("small rate", P["r"] < 0.03)
    m.saw("no or negative rate", P["r"] <= 0)
    m.stratum(name, side, P.get("type") or P.get("otype") or "", P.get("option", ""))
    before = dict(o.get_params())
    spots = ("S1", "S2") if two else ("S",)
    wrt = {"delta": spots, "gamma": spots, "lambda": spots, "theta": ("t",), "rho": ("r",), "vega": ("sigma1", "sigma2") if two else ("sigma",)}
    meth = {"lambda": "lamb"}

    def first(k):
        f, x = F(k), P[k]
        h = STEPS * (x if k != "r" or x > 0 else 0.01)
        if name in SMOOTH and k in spots + ("t",):
            h = h[:4]
        q = []
        for d in h:
            a, z = f(x + d), f(x - d)
            q += [(a - z) / (2 * d)] + ([] if name in SMOOTH else [(a - v0) / d, (v0 - z) / d])
        q = np.array(q)
        unit = s0 / (x if k in spots else 1.0)
        tight = (1e-4, 2e-3) if name in SMOOTH else (3e-4, 0.01)
        return np.nanmin(q), np.nanmax(q), tight[0] * unit + tight[1] * np.nanmax(np.abs(q))

    def judge(g, k, x):
        x = float(np.ravel(x)[0])
        if g in ("delta", "lambda", "theta", "vega", "rho"):
            kk = k
            lo, hi, tol = first(kk)
            if g == "lambda":
                if not abs(v0) > 1e-3 * s0:
                    return
                x = x * v0 / P[k]
            if g == "theta":
                x = -x
            if not lo - tol <= x <= hi + tol:
                import numdifftools as nd  # a kink within its steps

                y = float(nd.Derivative(F(kk), n=1, **({"step": 1 / 252} if g == "theta" else {"step": P["r"] / 10} if kk == "r" and name == "BAWAmericanApproxOption" else {}))(P[kk]))
                m.saw("slope across a kink")
                if np.isfinite(y):
                    lo, hi, tol = min(lo, y), max(hi, y), max(tol, 1e-6 * (abs(y) + s0 / P[kk] if P[kk] else 1.0))
            m.check(lo - tol <= x <= hi + tol, f"{g} of {name}", lambda: f"{name}.{g} ({side}) wrt {k}: {x!r} as a derivative, but its prices have slopes {lo!r} to {hi!r}", mech=f"{g}:{name}")
            return
        f, s = F(k), P[k]
        unit = s0 / s ** 2
        q = [(f(s + d) - 2 * v0 + f(s - d)) / d ** 2 for d in s * np.array([0.003, 0.01, 0.02, 0.04])]
        lo, hi = min(q), max(q)
        tol = 0.02 * unit + 0.05 * max(abs(lo), abs(hi))
        if name in SMOOTH:
            m.saw("gamma of a smooth price")
            q = q[:3] + [1.5 * q[1] - 0.5 * q[2]]
            lo, hi = min(q), max(q)
        if not lo - tol <= x <= hi + tol:
            import numdifftools as nd

            y = float(nd.Derivative(f, n=2)(s))
            m.saw("gamma across a kink")
            lo, hi, tol = min(lo, y), max(hi, y), 1e-6 * (abs(y) + unit)
        m.check(lo - tol <= x <= hi + tol, f"gamma of {name}", lambda: f"{name}.gamma ({side}) wrt {k}: {x!r}, but its prices have second quotients {lo!r} to {hi!r} (+- {tol!r})", mech=f"gamma:{name}")

    def entries(g, v):
        if not two or g in ("theta", "rho"):
            return [(wrt[g][0], v)]
        if not m.check(isinstance(v, dict) and set(v) == set(wrt[g]), f"{g} entries", lambda: f"{name}.{g} is {v!r}, expected one number for each of {wrt[g]}"):
            return []
        return [(k, v[k]) for k in wrt[g]]

    names = [str(g) for g in rng.permutation(list(wrt))[: 2 if two else 3]]
    got = {}
    for g in names:
        v = m.get(f"{name}.{g}", getattr(o, meth.get(g, g)), **sided[g])
        if v is None:
            return
        got[g] = v
        m.saw(g)
        for k, x in entries(g, v):
            judge(g, k, x)
    if "lambda" in got and abs(v0) > 1e-9 * s0 and rng.random() < 0.7:
        v = got.get("delta")
        if v is None:
            v = m.get(f"{name}.delta", o.delta, **sided["delta"])
        if v is None:
            return
        for (k, x), (_, d) in zip(entries("lambda", got["lambda"]), entries("delta", v)):
            m.saw("lambda against delta")
            x, d = float(np.ravel(x)[0]), float(np.ravel(d)[0])
            if np.isfinite(d) or np.isfinite(x):
                m.close(f"{name}.lambda against delta ({side})", x, d * P[k] / v0, 1e-5 * (abs(d) + 1e-9) * P[k] / v0, mech="lambda against delta:" + name)
    if rng.random() < 0.3:
        rep = m.get(f"{name}.greeks", o.greeks, **kw)
        if rep is None:
            return
        m.saw("report")
        if m.check(set(rep) == set(wrt), "report keys", lambda: f"{name}.greeks() reports {sorted(rep)}"):
            for g in wrt:
                if g == "lambda" and not abs(v0) > 1e-3 * s0:
                    continue
                if g in got:
                    a, b = entries(g, got[g]), entries(g, rep[g])
                    m.close(f"greeks()[{g}]", [float(np.ravel(q)[0]) for _, q in b], [float(np.ravel(q)[0]) for _, q in a], 1e-9 * (1 + max(abs(float(np.ravel(q)[0])) for _, q in a)), mech="report:" + g)
                else:
                    for k, x in entries(g, rep[g]):
                        judge(g, k, x)
    if rng.random() < 0.2:  # a vanilla-only greek must not silently appear as a number
        m.saw("refused")
        m.check(not hasattr(o, "c_of_c") or not m.call(f"{name}.c_of_c", lambda: o.c_of_c()).ok, "undefined greek answered", lambda: f"{name} answers c_of_c()")
    after = o.get_params()
    m.check(all(api._same(before[k], after.get(k)) for k in before) and set(before) == set(after), "state changed", lambda: f"parameters changed from {before} to {after} by computing greeks")
    p = m.get(f"{name}.{side}", getattr(o, side))
    if p is not None:
        m.close(f"{side} price after greeks", float(np.ravel(api.price_of(name, p))[0]), v0, 1e-12 * (abs(v0) + s0))
