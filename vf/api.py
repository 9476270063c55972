"""Table of the public option classes, and ways of bringing an instance into
the world: every check builds its objects through `build`, so that each oracle
also sees objects that were mutated, copied or used before."""
import numpy as np

SINGLE = ["S", "K", "t", "r", "b", "sigma"]
SPREAD = ["S1", "S2", "K", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "Q1", "Q2"]
MS = ["Pt", "FT", "K", "t", "T", "sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF"]

# name -> (dotted path below finoptions, constructor parameters in order)
CLASSES = {
    "GBSOption": ("GBSOption", SINGLE),
    "BlackScholesOption": ("BlackScholesOption", SINGLE),
    "Black76Option": ("Black76Option", ["FT", "K", "t", "r", "sigma"]),
    "MiltersenSchwartzOption": ("MiltersenSchwartzOption", MS),
    "RollGeskeWhaleyOption": ("basic_american_options.RollGeskeWhaleyOption", ["S", "K", "t", "td", "r", "D", "sigma"]),
    "BAWAmericanApproxOption": ("basic_american_options.BAWAmericanApproxOption", SINGLE),
    "BSAmericanApproxOption": ("basic_american_options.BSAmericanApproxOption", SINGLE),
    "CRRBinomialTreeOption": ("binomial_tree_options.CRRBinomialTreeOption", SINGLE + ["type", "n"]),
    "JRBinomialTreeOption": ("binomial_tree_options.JRBinomialTreeOption", SINGLE + ["type", "n"]),
    "TIANBinomialTreeOption": ("binomial_tree_options.TIANBinomialTreeOption", SINGLE + ["type", "n"]),
    "TrinomialTreeOption": ("binomial_tree_options.TrinomialTreeOption", SINGLE + ["type", "n"]),
    "BionomialSpreadAllTypes": (
        "spread_options.BionomialSpreadAllTypes",
        ["S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "K2", "Q1", "Q2", "option", "otype", "n"],
    ),
    "BionomialMaxOption": ("spread_options.BionomialMaxOption", SPREAD + ["otype", "n"]),
    "BionomialMinOption": ("spread_options.BionomialMinOption", SPREAD + ["otype", "n"]),
    "BionomialSpreadOption": ("spread_options.BionomialSpreadOption", SPREAD + ["otype", "n"]),
    "SpreadApproxOption": ("spread_options.SpreadApproxOption", SPREAD),
}
VANILLA = ["GBSOption", "BlackScholesOption", "Black76Option", "MiltersenSchwartzOption"]
AMERICAN = ["RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption"]
TREES = ["CRRBinomialTreeOption", "JRBinomialTreeOption", "TIANBinomialTreeOption", "TrinomialTreeOption"]
SPREADS = ["BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption", "SpreadApproxOption"]
KIND = {"CRRBinomialTreeOption": "CRR", "JRBinomialTreeOption": "JR", "TIANBinomialTreeOption": "TIAN"}


def cls(name):
    import finoptions as fo

    o = fo
    for part in CLASSES[name][0].split("."):
        o = getattr(o, part)
    return o


def sides(name):
    return ("call",) if name == "RollGeskeWhaleyOption" else ("call", "put")


def price_of(name, out):
    """the number behind a call()/put() result"""
    if name == "BSAmericanApproxOption":
        return out["OptionPrice"]
    return out


def donor(P, rng):
    """a valid parameter set that differs from P in a few places"""
    Q = dict(P)
    keys = [k for k in P if P[k] is not None]
    for k in rng.permutation(keys)[: int(rng.integers(1, 4))]:
        v = P[k]
        if k in ("type", "otype"):
            Q[k] = "american" if v == "european" else "european"
        elif k == "n":
            Q[k] = int(v) + int(rng.integers(1, 4))
        elif k == "option":
            continue  # payoffs need different strikes
        elif k.startswith("rho"):
            Q[k] = v * 0.5
        elif k in ("t", "T", "td"):
            continue  # mutual order constraints; covered by the history check
        elif k in ("r", "b", "b1", "b2"):
            Q[k] = v + 0.01
        else:
            Q[k] = v * 1.25
    return Q


DEFAULTS = {"Q1": 1, "Q2": 1, "n": 5, "type": "european", "otype": "european", "sigma": None}


def side(rng, call):
    """keyword arguments asking for one side; the call is the documented default"""
    return {} if call and rng.random() < 0.25 else {"call": call}


def build(m, name, P, rng, route=None):
    """an instance with parameters P, made directly or by a longer way round"""
    C = cls(name)
    order = [k for k in CLASSES[name][1] if k in P]
    if rng.random() < 0.2:
        P = retyped(P, rng)
        m.saw("other number types")
    if route is None:
        route = str(rng.choice(["kw", "pos", "set", "copy", "used"], p=[0.3, 0.2, 0.25, 0.1, 0.15]))
    full = order == CLASSES[name][1][: len(order)]
    m.saw("route:" + route)
    if route == "pos" and full:
        return m.get(f"{name}.__init__", lambda: C(*[P[k] for k in order]))
    if route == "set":
        Q = donor(P, rng)
        o = m.get(f"{name}.__init__", lambda: C(**Q))
        if o is None:
            return None
        for k in rng.permutation(order):
            if Q[k] is not P[k] and not _same(Q[k], P[k]):
                if m.call(f"{name}.set_param", o.set_param, str(k), P[k]).ok is False:
                    m.violate("raised", f"{name}.set_param({k!r}) raised", mech="raised:set_param")
                    return None
        return o
    A = {k: v for k, v in P.items() if not (k in DEFAULTS and not isinstance(v, np.ndarray) and v == DEFAULTS[k] and rng.random() < 0.5)}
    if len(A) < len(P):
        m.saw("documented defaults left out")
    o = m.get(f"{name}.__init__", lambda: C(**A))
    if o is None:
        return None
    if route == "copy":
        c = m.get(f"{name}.copy", o.copy)
        return c
    if route == "used":
        for _ in range(int(rng.integers(1, 3))):
            side = str(rng.choice(sides(name)))
            m.get(f"{name}.{side}", getattr(o, side))
        # another object of the same class must not disturb this one
        Q = donor(P, rng)
        o2 = m.get(f"{name}.__init__", lambda: C(**Q))
        if o2 is not None:
            m.call(f"{name}.call", o2.call)
    return o


def retyped(P, rng):
    """the same numbers as numpy scalars or, where whole, as integers"""
    out = {}
    for k, v in P.items():
        u = rng.random()
        if isinstance(v, bool) or not isinstance(v, (int, float)) or u < 0.4:
            out[k] = v
        elif isinstance(v, int) or float(v).is_integer() and abs(v) < 2**31 and u < 0.8:
            out[k] = np.int64(v) if u < 0.7 else int(v)
        else:
            out[k] = np.float64(v)
    return out


def _same(a, b):
    try:
        return bool(np.all(np.asarray(a) == np.asarray(b)))
    except Exception:  # noqa: BLE001
        return a is b


# --------------------------------------------------------------------------
# ordinary parameter sets for every class
# --------------------------------------------------------------------------
def wide(name, rng, n_max=12, spread_n=5):
    """a parameter set from the whole range in which the class's own price property is checked"""
    from props import c02, c08, c09, c10, c11, c14, c15
    from vf import gen

    def deep(P):
        if rng.random() < 0.15:
            P["K"] = P["S"] * float(np.exp(rng.uniform(1.0, 2.0) * gen.pick(rng, -1, 1)))
        return P

    if name == "MiltersenSchwartzOption":
        return c02.market(rng)[0]
    if name == "RollGeskeWhaleyOption":
        return c08.market(rng)[0]
    if name == "SpreadApproxOption":
        return {"Q1": 1, "Q2": 1, **c15.market(rng)[0]}
    if name in SPREADS:
        while True:
            k, P = c14.draw(rng, spread_n)
            if k == name:
                P["n"] = min(P["n"], 3 * spread_n)
                if name == "BionomialSpreadAllTypes":
                    for q in ("K", "K2"):
                        P[q] = P["Q2"] * P["S2"] if P.get(q) is None else P[q]
                return P
    if name in TREES:
        while True:
            k, P, _, _ = c11.draw(rng, max(60, 3 * n_max))
            if k == name:
                P["n"] = min(P["n"], 3 * n_max)
                if c11.amplification(k, P) < 1e3:
                    return deep(P)
    if name == "BAWAmericanApproxOption":
        return c09.case(rng, 0, "quick")["P"]
    if name == "BSAmericanApproxOption":
        while True:
            P = c10.case(rng, 0, "quick")["P"]
            if P["r"] > 0 and P["b"] >= -0.1 and P["sigma"] > 0.08:
                return P
    P = deep(gen.market(rng)[0])
    if name == "Black76Option":
        P = dict(FT=P["S"], K=P["K"], t=P["t"], r=P["r"], sigma=P["sigma"])
    return P


def sample(name, rng, n_max=12, spread_n=5, wide_share=0.0):
    """a well-behaved parameter set: prices of every class are sound here (a share of them from anywhere)"""
    from vf import gen

    if wide_share and rng.random() < wide_share:
        return wide(name, rng, n_max, spread_n)
    if name == "MiltersenSchwartzOption":
        from props import c02

        while True:
            P, _, sd = c02.market(rng)
            if sd > 0.05 and abs(np.log(P["K"] / P["FT"])) < 2 * sd:
                return P
    if name == "RollGeskeWhaleyOption":
        from props import c08

        while True:
            P, _ = c08.market(rng, vmin=0.15, vmax=0.8)
            if P["D"] < 0.15 * P["S"]:
                return P
    if name in SPREADS:
        S1 = gen.logu(rng, 20, 200)
        S2 = S1 * float(np.exp(rng.uniform(-0.3, 0.3)))
        P = dict(S1=S1, S2=S2, K=float(rng.uniform(0, 0.2)) * S1, t=gen.logu(rng, 0.1, 2.0), r=float(rng.uniform(0.0, 0.12)), b1=float(rng.uniform(-0.05, 0.1)), b2=float(rng.uniform(-0.05, 0.1)),
                 sigma1=float(rng.uniform(0.15, 0.6)), sigma2=float(rng.uniform(0.15, 0.6)), rho=float(rng.uniform(-0.9, 0.9)), Q1=float(rng.uniform(0.5, 2)), Q2=float(rng.uniform(0.5, 2)))
        if name == "BionomialSpreadAllTypes":
            o = int(rng.integers(1, 10))
            P["option"] = o
            a, b = P["Q1"] * S1, P["Q2"] * S2
            mid = {1: a - b, 2: max(a, b), 3: min(a, b), 4: a, 5: a, 6: a + b, 7: a, 8: a / b, 9: a * b}[o]
            P["K"] = float(mid * rng.uniform(0.7, 1.3))
            P["K2"] = float(b * rng.uniform(0.7, 1.3))
        elif name in ("BionomialMaxOption", "BionomialMinOption"):
            P["K"] = float((P["Q1"] * S1) * rng.uniform(0.7, 1.3))
        if name != "SpreadApproxOption":
            P["otype"] = gen.pick(rng, "european", "american")
            P["n"] = int(rng.integers(1, spread_n + 1))
        return P
    P, _ = gen.market(rng, smin=1.0, smax=2000.0, tmin=0.1, tmax=3.0, vmin=0.15, vmax=0.8, rmin=0.01, money=gen.pick(rng, "atm", "atf", "near"),
                      bmode=gen.pick(rng, "zero", "r", "below", "above"), ints=False)
    P["r"] = max(P["r"], 0.01)
    if name == "BSAmericanApproxOption" and P["b"] < P["r"]:
        P["b"] = max(P["b"], -0.04)
    if name == "Black76Option":
        P = dict(FT=P["S"], K=P["K"], t=P["t"], r=P["r"], sigma=P["sigma"])
    if name in TREES:
        P["type"] = gen.pick(rng, "european", "american")
        P["n"] = int(rng.integers(1, n_max + 1))
    return P


def change(name, P, rng):
    """one admissible single-parameter change: (key, new value)"""
    from vf import gen

    while True:
        k = str(rng.choice(list(P)))
        v = P[k]
        if k in ("type", "otype"):
            return k, "american" if v == "european" else "european"
        if k == "n":
            return k, int(rng.integers(1, 8))
        if v is None or k == "option" and (P.get("K") is None or P.get("K2", 0.0) is None):
            continue
        if k == "option":
            return k, int(rng.integers(1, 10))
        if k == "t":
            lo, hi = min(0.05, float(np.max(v))), max(3.0, float(np.max(v)))
            if "T" in P:
                hi = float(np.min(P["T"]))
            if "td" in P:
                lo = float(P["td"]) * 1.05
            x = float(np.max(v)) * float(rng.uniform(0.7, 1.4))
            return k, float(min(max(x, lo), hi))
        if k == "T":
            return k, float(np.max(P["t"]) + rng.uniform(0, 1))
        if k == "td":
            return k, float(P["t"] * rng.uniform(0.1, 0.9))
        if k == "D":
            return k, float(P["S"] * rng.uniform(0, 0.1))
        if k == "rho":
            return k, float(rng.uniform(-0.9, 0.9))
        if k.startswith("rho"):
            return k, float(np.max(np.abs(v)) * rng.uniform(-0.5, 1.0)) if np.max(np.abs(v)) > 0 else 0.1
        if k in ("r",):
            return k, float(rng.uniform(0.01, 0.12))
        if k in ("b", "b1", "b2"):
            return k, float(gen.pick(rng, 0.0, rng.uniform(-0.04, 0.1)))
        if k.lower().startswith("sigma"):
            return k, float(np.max(v) * rng.uniform(0.8, 1.2))
        return k, float(np.max(v) * rng.uniform(0.8, 1.25))
