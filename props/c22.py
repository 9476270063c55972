"""Relations between observed prices: across models, across inputs, across conventions. No reference model."""
import numpy as np

from vf import api, gen

ID = "C22"
CPU = 90
CHUNK = 8
COUNTS = {"quick": 1400, "thorough": 24000}
RULE = "one case = one relation on one market; every price in it is observed. Non-trivial: the prices related are above 1e-6 of the spot."
ASSUMPTIONS = [
    "lattices of n steps are within a few S*sd/n of their limit (constant calibrated with a margin of two and more)",
    "approximations of American options: Barone-Adesi-Whaley within 0.6% of spot plus strike of the lattice, Bjerksund-Stensland not above the lattice",
]


class Stop(Exception):
    pass


class X:
    """observed prices of one case"""

    def __init__(self, m, rng):
        self.m, self.rng, self.big = m, rng, 0.0

    def __call__(self, name, P, side="call", route=None):
        o = api.build(self.m, name, P, self.rng, route=route or ("kw" if self.rng.random() < 0.7 else None))
        if o is None:
            raise Stop
        v = self.m.get(f"{name}.{side}", getattr(o, side))
        if v is None:
            raise Stop
        v = float(np.ravel(api.price_of(name, v))[0])
        self.big = max(self.big, abs(v))
        return v


def one(rng, **k):
    a = dict(smin=1.0, smax=5000.0, tmin=0.1, tmax=3.0, vmin=0.12, vmax=0.7, rmin=0.0, rmax=0.12, money=gen.pick(rng, "atm", "atf", "near", "near", "mid"), maxdev=2.0,
             bmode=gen.pick(rng, "zero", "r", "below", "above"), ints=False)
    a.update(k)
    P, _ = gen.market(rng, **a)
    return P


def single(rng, names=None):
    name = gen.pick(rng, *(names or ["GBSOption", "BlackScholesOption", "Black76Option", "BAWAmericanApproxOption", "BSAmericanApproxOption"] + api.TREES))
    return name, proper(name, rng, 20)


def proper(name, rng, n_max):
    """a market; a lattice with probabilities between 0 and 1"""
    while True:
        P = api.sample(name, rng, n_max=n_max)
        if name not in api.TREES or abs(P["b"]) * np.sqrt(P["t"] / P["n"]) < 0.9 * P["sigma"]:
            return P


def side_of(name, rng):
    return "call" if name == "RollGeskeWhaleyOption" else gen.pick(rng, "call", "put")


def fwd(P, k):
    return {**P, **k}


def scale(P):
    S = P.get("S", P.get("FT", P.get("S1")))
    return S + abs(P.get("K") or 0.0)


# -- relations --------------------------------------------------------------
def lattice_limit(x, rng, tier):
    """European lattices approach the closed form"""
    P = one(rng, tmax=2.0)
    name = gen.pick(rng, *api.TREES)
    side = gen.pick(rng, "call", "put")
    n = 80 if tier == "quick" else int(gen.pick(rng, 60, 120, 240))
    if name == "TIANBinomialTreeOption":
        n = max(n, 160)
    sd = P["sigma"] * np.sqrt(P["t"])
    v = x(name, dict(P, type="european", n=n), side, "kw")
    w = x("GBSOption", P, side)
    x.m.close(f"European {api.KIND.get(name, 'TRI')} lattice vs closed form", v, w, lattice_tol(P, n))


def lattice_tol(P, n):
    sd = P["sigma"] * np.sqrt(P["t"])
    drift = abs(P["b"]) * P["t"]
    return max(P["S"], P["S"] * np.exp((P["b"] - P["r"]) * P["t"]), P["K"]) * (0.3 * sd * (1 + sd) ** 2 + 0.2 * drift ** 2 / sd) / n


def lattices_agree(x, rng, tier):
    """American lattices of different construction agree in the limit"""
    P = one(rng, tmax=2.0)
    a, b = [api.TREES[k] for k in rng.permutation(4)[:2]]
    side = gen.pick(rng, "call", "put")
    n = 80 if tier == "quick" else int(gen.pick(rng, 60, 120, 200))
    v = [x(q, dict(P, type="american", n=n), side, "kw") for q in (a, b)]
    x.m.close("American lattices against each other", v[0], v[1], 2 * lattice_tol(P, n))


def american_dominates(x, rng, tier):
    """American at least European, at least the exercise value, more with more time"""
    if rng.random() < 0.3:
        name = gen.pick(rng, "BionomialSpreadAllTypes", "BionomialMaxOption", "BionomialMinOption", "BionomialSpreadOption")
        P = api.sample(name, rng, spread_n=8)
        side = gen.pick(rng, "call", "put")
        a, e = (x(name, dict(P, otype=s), side) for s in ("american", "european"))
        sc = abs(a) + abs(e) + P["S1"]
        x.m.check(a >= e - 1e-12 * sc, "American below European", lambda: f"{name} {side}: American {a!r} < European {e!r}")
        return
    if rng.random() < 0.5:
        name = gen.pick(rng, *api.TREES)
        P = proper(name, rng, 30)
        side = gen.pick(rng, "call", "put")
        a, e = (x(name, dict(P, type=s), side) for s in ("american", "european"))
        x.m.check(a >= e - 1e-12 * scale(P), "American below European", lambda: f"{name} {side}: American {a!r} < European {e!r}")
        ex = P["S"] - P["K"] if side == "call" else P["K"] - P["S"]
        x.m.check(a >= ex - 1e-12 * scale(P), "American below exercise value", lambda: f"{name} {side}: American {a!r} < {ex!r}")
        return
    P = one(rng, tmin=0.25)
    P["r"] = max(P["r"], 0.01)
    side = gen.pick(rng, "call", "put")
    v = x("BAWAmericanApproxOption", P, side)
    e = x("GBSOption", P, side)
    ex = P["S"] - P["K"] if side == "call" else P["K"] - P["S"]
    x.m.check(v >= max(e, ex) - 3e-6 * scale(P), "BAW below European or exercise value", lambda: f"{side}: {v!r} < max({e!r}, {ex!r})")


def american_approx(x, rng, tier):
    """the American approximations sit close to the American lattice"""
    P = one(rng, tmax=3.0, rmin=0.01)
    P["r"] = max(P["r"], 0.01)
    P["b"] = max(P["b"], -0.04)
    side = gen.pick(rng, "call", "put")
    n = 100
    lat = x("CRRBinomialTreeOption", dict(P, type="american", n=n), side, "kw")
    tol = lattice_tol(P, n)
    v = x("BAWAmericanApproxOption", P, side)
    x.m.close("BAW vs lattice", v, lat, tol + 0.006 * scale(P))
    if P["r"] - P["b"] > 1e-4 if side == "put" else True:
        w = x("BSAmericanApproxOption", P, side)
        sc = scale(P)
        x.m.check(w <= lat + tol + 1e-6 * sc, "Bjerksund-Stensland above lattice", lambda: f"{side} {w!r} above {lat!r}")
        x.m.check(w >= lat - tol - 0.04 * sc, "Bjerksund-Stensland far below lattice", lambda: f"{side} {w!r} below {lat!r}")


def no_early_exercise(x, rng, tier):
    """no reason to exercise early: American equals European"""
    P = one(rng)
    P["b"] = P["r"] + float(gen.pick(rng, 0.0, rng.uniform(0, 0.1)))
    P["r"] = max(P["r"], 0.01)
    P["b"] = max(P["b"], P["r"])
    e = x("GBSOption", P, "call")
    name = gen.pick(rng, "BAWAmericanApproxOption", "BSAmericanApproxOption", *api.TREES)
    if name in api.TREES:
        n = int(rng.integers(2, 40))
        a, b = (x(name, dict(P, type=s, n=n), "call") for s in ("american", "european"))
        x.m.close("American call without early exercise (lattice)", a, b, 1e-11 * scale(P) if name == "CRRBinomialTreeOption" else lattice_tol(P, n))  # only CRR steps are exact martingales
        return
    x.m.close("American call without early exercise (approximation)", x(name, P, "call"), e, 3e-7 * scale(P))


def homogeneous(x, rng, tier):
    """prices scale with the currency"""
    lam = float(gen.pick(rng, 0.01, 0.5, 3.0, 100.0, gen.logu(rng, 0.05, 20)))
    name = gen.pick(rng, *api.CLASSES)
    P = api.sample(name, rng, n_max=15)
    if P.get("option") in (8, 9):
        P["option"] = 1
    money = {"S", "FT", "K", "D", "S1", "S2", "K2"}
    side = side_of(name, rng)
    v = x(name, P, side)
    w = x(name, {k: (q * lam if k in money and q is not None else q) for k, q in P.items()}, side)
    sc = scale(P) * (P.get("Q1", 1) + P.get("Q2", 1))
    tol = {"RollGeskeWhaleyOption": 2e-5, "BAWAmericanApproxOption": 2e-5, "BSAmericanApproxOption": 1e-6}.get(name, 1e-8 if name in api.VANILLA else 1e-10)
    x.m.close("currency scaling", w / lam, v, tol * sc)


def clock(x, rng, tier):
    """measuring time in another unit changes nothing"""
    c = float(gen.pick(rng, 2.0, 0.5, gen.logu(rng, 0.3, 3)))
    name = gen.pick(rng, *(k for k in api.CLASSES if k != "MiltersenSchwartzOption"))
    P = api.sample(name, rng, n_max=15)
    side = side_of(name, rng)
    Q = {k: q * c if k in ("t", "td") else q / c if k in ("r", "b", "b1", "b2") else q / np.sqrt(c) if k.startswith("sigma") else q for k, q in P.items()}
    sc = scale(P) * (P.get("Q1", 1) + P.get("Q2", 1)) * (1 + (P["S1"] * P["S2"] if P.get("option") == 9 else 0))
    tol = {"RollGeskeWhaleyOption": 2e-5, "BAWAmericanApproxOption": 2e-5, "BSAmericanApproxOption": 1e-6}.get(name, 1e-8 if name in api.VANILLA else 1e-10)
    x.m.close("time unit", x(name, Q, side), x(name, P, side), tol * sc)


def monotone(x, rng, tier):
    """calls rise with spot and fall with strike, puts the reverse; convex in both"""
    name, P = single(rng)
    side = side_of(name, rng)
    s = "FT" if "FT" in P else "S"
    sd = P["sigma"] * np.sqrt(P["t"])
    tol = {"BAWAmericanApproxOption": 1e-5, "BSAmericanApproxOption": 1e-6}.get(name, 3e-7 if name not in api.TREES else 1e-11) * scale(P)
    for k in rng.permutation([s, "K"]):
        k = str(k)
        f = np.cumprod([1.0] + [1 + 0.3 * sd * rng.uniform(0.3, 1.0) for _ in range(2)])
        xs = [P[k] * q for q in f]
        v = [x(name, fwd(P, {k: q}), side) for q in xs]
        up = (side == "call") == (k == s)
        d = np.diff(v) * (1 if up else -1)
        x.m.check(np.all(d >= -tol), f"monotonicity in {'spot' if k == s else 'strike'}", lambda: f"{name} {side} prices {v} at {k}={xs}")
        slope = np.diff(v) / np.diff(xs)
        x.m.check(np.all(np.abs(slope) <= max(1.0, np.exp((P.get("b", 0.0) - P["r"]) * P["t"])) + tol / np.min(np.diff(xs))), "slope above one", lambda: f"{name} {side} prices {v} at {k}={xs}")
        if name not in ("BAWAmericanApproxOption", "BSAmericanApproxOption"):
            h = np.min(np.diff(xs))
            x.m.check(slope[1] - slope[0] >= -4 * tol / h, "convexity", lambda: f"{name} {side} prices {v} at {k}={xs}")


def volatility_up(x, rng, tier):
    """more volatility, more value"""
    name = gen.pick(rng, "GBSOption", "BlackScholesOption", "Black76Option", "RollGeskeWhaleyOption", "BAWAmericanApproxOption", "BSAmericanApproxOption")
    P = api.sample(name, rng)
    side = side_of(name, rng)
    Q = dict(P, sigma=P["sigma"] * float(rng.uniform(1.02, 1.5)))
    a, b = x(name, P, side), x(name, Q, side)
    tol = {"RollGeskeWhaleyOption": 1e-5, "BAWAmericanApproxOption": 1e-5, "BSAmericanApproxOption": 1e-5}.get(name, 3e-7) * scale(P)
    x.m.check(b >= a - tol, "monotonicity in volatility", lambda: f"{name} {side}: {a!r} at {P['sigma']}, {b!r} at {Q['sigma']}")


def longer_life(x, rng, tier):
    """an American option is worth no less with more time"""
    name = gen.pick(rng, "BAWAmericanApproxOption", "BSAmericanApproxOption", "lattice")
    P = one(rng, tmax=2.0)
    P["r"] = max(P["r"], 0.01)
    P["b"] = max(P["b"], -0.04)
    side = gen.pick(rng, "call", "put")
    f = float(rng.uniform(1.05, 1.6))
    if name == "BSAmericanApproxOption":
        P["b"] = min(P["b"], P["r"] - 0.001)  # its put formula is made for b < r
    Q = dict(P, t=P["t"] * f)
    if name == "lattice":  # same step, more of them
        n = int(rng.integers(10, 40))
        k = int(rng.integers(1, 20))
        Q["t"] = P["t"] * (n + k) / n
        name = gen.pick(rng, *api.TREES)
        a, b, tol = x(name, dict(P, type="american", n=n), side), x(name, dict(Q, type="american", n=n + k), side), 1e-10 * scale(P)
    else:
        a, b, tol = x(name, P, side), x(name, Q, side), {"BAWAmericanApproxOption": 2e-3}.get(name, 1e-5) * scale(P)
    x.m.check(b >= a - tol, "monotonicity in maturity", lambda: f"{name} {side}: {a!r} at t={P['t']}, {b!r} at t={Q['t']}")


def same_contract(x, rng, tier):
    """one contract under the names the library has for it"""
    P = one(rng, bmode=None)
    side = gen.pick(rng, "call", "put")
    a = x("GBSOption", P, side)
    x.m.close("GBS and Black-Scholes", x("BlackScholesOption", P, side), a, 1e-12 * scale(P))
    F = P["S"] * np.exp(P["b"] * P["t"])
    Q = dict(FT=F, K=P["K"], t=P["t"], r=P["r"], sigma=P["sigma"])
    x.m.close("Black-76 on the forward", x("Black76Option", Q, side), a, 1e-7 * scale(P))
    sS = P["sigma"]
    M = dict(Pt=float(np.exp(-P["r"] * P["t"])), FT=F, K=P["K"], t=P["t"], T=P["t"] + float(gen.pick(rng, 0.0, 0.4)), sigmaS=sS, sigmaE=0.0, sigmaF=0.0,
             rhoSE=float(rng.uniform(-0.9, 0.9)), rhoSF=float(rng.uniform(-0.9, 0.9)), rhoEF=float(rng.uniform(-0.9, 0.9)), KappaE=float(rng.uniform(0.2, 3)), KappaF=float(rng.uniform(0.2, 3)))
    x.m.close("Miltersen-Schwartz with constant yield and rate", x("MiltersenSchwartzOption", M, side), a, 2e-7 * scale(P))


def symmetry(x, rng, tier):
    """a call is a put with the roles of asset and cash exchanged"""
    name = gen.pick(rng, "GBSOption", "BSAmericanApproxOption", "CRRBinomialTreeOption", "CRRBinomialTreeOption")
    P = one(rng)
    P["r"] = max(P["r"], 0.02)
    P["b"] = float(min(P["r"] - 0.005, max(P["b"], -0.04)))
    Q = dict(P, S=P["K"], K=P["S"], r=P["r"] - P["b"], b=-P["b"])
    if Q["b"] >= Q["r"] or P["b"] >= P["r"]:
        raise Stop
    n = int(rng.integers(1, 40))
    e = {"type": gen.pick(rng, "european", "american"), "n": n} if name in api.TREES else {}
    if e and abs(P["b"]) * np.sqrt(P["t"] / n) > 0.5 * P["sigma"]:
        e["n"] = 40
    a, b = x(name, {**P, **e}, "call"), x(name, {**Q, **e}, "put")
    tol = {"CRRBinomialTreeOption": 1e-10, "GBSOption": 3e-7, "BSAmericanApproxOption": 1e-6}[name] * scale(P)
    x.m.close("call-put symmetry " + name, a, b, tol)


def dividends(x, rng, tier):
    """one known dividend: between its European alternatives, and nothing special without it"""
    P = api.sample("RollGeskeWhaleyOption", rng)
    sc = scale(P)
    v = x("RollGeskeWhaleyOption", P)
    e = dict(S=P["S"] - P["D"] * np.exp(-P["r"] * P["td"]), K=P["K"], t=P["t"], r=P["r"], b=P["r"], sigma=P["sigma"])
    lo = x("GBSOption", e)
    x.m.check(v >= lo - 2e-5 * sc, "RGW below the European call on the stock without the dividend", lambda: f"{v!r} < {lo!r}")
    early = x("GBSOption", dict(e, t=P["td"]))  # same volatility of the stock net of the dividend
    x.m.check(v >= early - 2e-5 * sc, "RGW below exercising just before the dividend", lambda: f"{v!r} < {early!r}")
    hi = x("GBSOption", dict(e, S=P["S"]))
    x.m.check(v <= hi + 2e-5 * sc, "RGW above the call on the stock that pays nothing", lambda: f"{v!r} > {hi!r}")
    x.m.close("RGW without a dividend", x("RollGeskeWhaleyOption", dict(P, D=0.0)), hi, 2e-5 * sc)
    x.m.check(x("RollGeskeWhaleyOption", dict(P, D=P["D"] * 0.7)) >= v - 2e-5 * sc, "RGW rises with the dividend", lambda: f"{v!r}")


def two_assets(rng):
    return api.sample("SpreadApproxOption", rng)


def exchange(x, rng, tier):
    """right to exchange: lattice, approximation at zero strike, and their mirror images"""
    P = two_assets(rng)
    P["K"] = 0.0
    P["t"] = min(P["t"], 1.0)
    sc = P["S1"] * P["Q1"] + P["S2"] * P["Q2"]
    k = x("SpreadApproxOption", P, "call")
    mirror = dict(P, S1=P["S2"], S2=P["S1"], b1=P["b2"], b2=P["b1"], sigma1=P["sigma2"], sigma2=P["sigma1"], Q1=P["Q2"], Q2=P["Q1"])
    x.m.close("exchange seen from the other side", x("SpreadApproxOption", mirror, "put"), k, 3e-7 * sc)
    n = 40
    L = dict(P, n=n, otype="european")
    vol = (P["sigma1"] + P["sigma2"]) * np.sqrt(P["t"])
    tol = 0.1 * sc * (vol + vol ** 2) / n
    v = x("BionomialSpreadOption", L, "call", "kw")
    x.m.close("lattice spread at zero strike vs approximation", v, k, tol)
    # the exchange payoff gives the first asset for the second
    w = x("BionomialSpreadAllTypes", dict(L, option=7, K=None, K2=None), "put", "kw")
    x.m.close("exchange payoff vs spread at zero strike", w, v, 1e-11 * sc)


def rainbow(x, rng, tier):
    """the better plus the worse of two assets is both"""
    P = two_assets(rng)
    P["t"] = min(P["t"], 1.0)
    P["K"] = float(P["S1"] * P["Q1"] * rng.uniform(0.7, 1.3))
    n = int(rng.integers(8, 30))
    P["n"] = n
    P["otype"] = "european"
    side = gen.pick(rng, "call", "put")
    a = x("BionomialMaxOption", P, side, "kw") + x("BionomialMinOption", P, side, "kw")
    parts = [x("GBSOption", dict(S=P["S" + k] * P["Q" + k], K=P["K"], t=P["t"], r=P["r"], b=P["b" + k], sigma=P["sigma" + k]), side) for k in "12"]
    sc = P["S1"] * P["Q1"] + P["S2"] * P["Q2"] + P["K"]
    vol = (P["sigma1"] + P["sigma2"]) * np.sqrt(P["t"])
    x.m.close("best plus worst of two", a, sum(parts), 0.15 * sc * (vol + vol ** 2) / n)
    # who is called first does not matter
    mirror = dict(P, S1=P["S2"], S2=P["S1"], b1=P["b2"], b2=P["b1"], sigma1=P["sigma2"], sigma2=P["sigma1"], Q1=P["Q2"], Q2=P["Q1"], otype=gen.pick(rng, "european", "american"))
    name = gen.pick(rng, "BionomialMaxOption", "BionomialMinOption")
    x.m.close("order of the assets", x(name, mirror, side, "kw"), x(name, dict(P, otype=mirror["otype"]), side, "kw"), 0.2 * sc * (vol + vol ** 2) / n)


def quantities(x, rng, tier):
    """a holding of Q units at S is worth what Q*lambda units at S/lambda are"""
    name = gen.pick(rng, *api.SPREADS)
    P = api.sample(name, rng, spread_n=10)
    side = gen.pick(rng, "call", "put")
    l1, l2 = (float(gen.logu(rng, 0.2, 5)) for _ in "12")
    Q = dict(P, S1=P["S1"] * l1, Q1=P["Q1"] / l1, S2=P["S2"] * l2, Q2=P["Q2"] / l2)
    sc = (P["S1"] * P["Q1"] + P["S2"] * P["Q2"] + abs(P["K"])) * (1 + (P["S1"] if P.get("option") == 9 else 0))
    x.m.close("quantity against price", x(name, Q, side), x(name, P, side), 1e-9 * sc)


def lattice_parity(x, rng, tier):
    """European two-asset lattice: call minus put is linear in the strike"""
    P = api.sample("BionomialSpreadAllTypes", rng, spread_n=10)
    o = int(gen.pick(rng, 1, 2, 3, 6, 8, 9))
    P["option"] = o
    P["otype"] = "european"
    K2 = P["K"] * float(rng.uniform(1.05, 1.5)) + 0.1
    d = [x("BionomialSpreadAllTypes", dict(P, K=k), "call") - x("BionomialSpreadAllTypes", dict(P, K=k), "put") for k in (P["K"], K2)]
    sc = abs(d[0]) + abs(d[1]) + x.big + abs(K2)
    x.m.close("two-asset parity", d[0] - d[1], (K2 - P["K"]) * np.exp(-P["r"] * P["t"]), 1e-10 * sc)


def garch(x, rng, tier):
    """Heston-Nandi: Black-Scholes in the limit, currency scaling, falls with the strike"""
    from props import c17

    P = c17.market(rng, 40, sdmin=0.03, quick=True)

    def v(Q, side="call"):
        o = c17.make(x.m, Q, rng)
        if o is None:
            raise Stop
        p = x.m.get("HestonNandiOption." + side, getattr(o, side))
        if p is None:
            raise Stop
        x.big = max(x.big, float(np.ravel(p)[0]))
        return float(np.ravel(p)[0])

    g = P["gamma"] + P["lamb"] + 0.5
    h0 = (P["omega"] + P["alpha"]) / (1 - P["beta"] - P["alpha"] * g * g)
    sd = np.sqrt(h0 * P["t"])
    tol = 1e-5 * (P["S"] + P["K"])
    side = gen.pick(rng, "call", "put")
    a = v(P, side)
    lam = gen.logu(rng, 0.1, 10)
    x.m.close("GARCH currency scaling", v(dict(P, S=P["S"] * lam, K=P["K"] * lam), side) / lam, a, tol * max(1, 1 / lam))
    K2 = P["K"] * (1 + 0.3 * sd)
    b = v(dict(P, K=K2), side)
    x.m.check((b <= a + tol) if side == "call" else (b >= a - tol), "GARCH monotonicity in strike", lambda: f"{side} {a!r} at {P['K']}, {b!r} at {K2}")
    Q = dict(P, alpha=h0 * 1e-9, gamma=float(rng.uniform(-20, 20)), omega=h0 * (1 - P["beta"]))
    bs = x("GBSOption", dict(S=P["S"], K=P["K"], t=float(P["t"]), r=P["r"], b=P["r"], sigma=float(np.sqrt(h0))), side)
    x.m.close("GARCH without variance of variance is Black-Scholes", v(Q, side), bs, tol)


def bounds(x, rng, tier):
    """no price beyond what the contract can pay"""
    name = gen.pick(rng, *(k for k in api.CLASSES if k not in api.SPREADS))
    P = proper(name, rng, 20)
    side = side_of(name, rng)
    v = x(name, P, side)
    s = P.get("S", P.get("FT"))
    if name == "MiltersenSchwartzOption":
        x.m.check(v >= -3e-7 * scale(P), "negative price", lambda: f"{name} {side} {v!r}")
        return
    up = max(1.0, np.exp((P.get("b", 0.0) - P["r"]) * P["t"]))
    hi = s * up if side == "call" else P["K"] * max(1.0, np.exp(-P["r"] * P["t"]))
    x.m.check(-1e-7 * s <= v <= hi * (1 + 1e-6), "bounds", lambda: f"{name} {side} {v!r} outside [0, {hi!r}]")


REL = [lattice_limit, lattices_agree, american_dominates, american_approx, no_early_exercise, homogeneous, clock, monotone, volatility_up, longer_life,
       same_contract, symmetry, dividends, exchange, rainbow, quantities, lattice_parity, garch, bounds]
REQUIRED = {f"relation:{f.__name__}": 20 for f in REL}


def case(rng, i, tier):
    return {"rel": REL[i % len(REL)].__name__, "draw": gen.sub(rng), "tier": tier}


def run(c, m):
    rng = np.random.default_rng(c["draw"])
    x = X(m, rng)
    f = next(f for f in REL if f.__name__ == c["rel"])
    try:
        f(x, rng, c["tier"])
    except Stop:
        m.trivial = True
        return
    m.saw("relation:" + c["rel"])
    m.stratum(c["rel"])
    m.trivial = not x.big > 1e-6
