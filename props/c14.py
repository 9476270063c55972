"""Two-asset lattice options."""
import numpy as np

from vf import api, gen, refs

ID = "C14"
CPU = 20
CHUNK = 40
COUNTS = {"quick": 9000, "thorough": 100000}
NAMED = {"BionomialSpreadOption": 1, "BionomialMaxOption": 2, "BionomialMinOption": 3}
LATTICE = ["BionomialSpreadAllTypes"] + list(NAMED)
REQUIRED = {f"payoff:{k}:{s}": 60 for k in range(1, 10) for s in ("call", "put")}
REQUIRED.update({"style:european": 800, "style:american": 800, "early exercise": 300, "class:BionomialSpreadOption": 100, "class:BionomialMaxOption": 100,
                 "class:BionomialMinOption": 100, "named against general": 300, "n=1": 50, "route:set": 200})
RULE = "one case = one two-asset market, payoff and step count; call and put are judged. Non-trivial: a price above 1e-8 of the size of the payoff's legs."
ASSUMPTIONS = []


def draw(rng, nbig, option=None):
    name = LATTICE[0] if rng.random() < 0.75 else LATTICE[int(rng.integers(1, 4))]
    S1 = gen.logu(rng, 0.5, gen.pick(rng, 500, 500, 3e4))
    S2 = S1 * float(np.exp(rng.uniform(-0.6, 0.6)))
    rho = gen.pick(rng, 0.0, 0.5, -0.5, float(rng.choice([-1.0, 1.0, 0.9, -0.9])), float(rng.uniform(-0.99, 0.99)), float(rng.uniform(-0.99, 0.99)))
    r = gen.pick(rng, 0.0, 0.05, float(rng.uniform(0, 0.15)), float(rng.uniform(-0.03, 0.25)))
    P = dict(S1=S1, S2=S2, K=0.0, t=gen.pick(rng, 0.1, 0.5, 1.0, gen.logu(rng, 0.02, 5)), r=r,
             b1=gen.pick(rng, 0.0, r, float(rng.uniform(-0.1, 0.15))), b2=gen.pick(rng, 0.0, r, float(rng.uniform(-0.1, 0.15))),
             sigma1=float(rng.uniform(0.05, gen.pick(rng, 0.8, 1.1))), sigma2=float(rng.uniform(0.05, gen.pick(rng, 0.8, 1.1))), rho=rho,
             Q1=gen.pick(rng, 1, 1.0, float(rng.uniform(0.2, 4))), Q2=gen.pick(rng, 1, 1.0, float(rng.uniform(0.2, 4))),
             otype=gen.pick(rng, "european", "american"))
    o = NAMED.get(name) or option or int(rng.integers(1, 10))
    a, b = P["Q1"] * S1, P["Q2"] * S2
    mid = {1: a - b, 2: max(a, b), 3: min(a, b), 4: a, 5: a, 6: a + b, 7: a, 8: a / b, 9: a * b}[o]
    P["K"] = float(mid * np.exp(rng.uniform(-0.5, 0.5))) if o != 1 else float(mid + gen.pick(rng, 0.0, 1.0) * rng.uniform(-0.3, 0.3) * (a + b))
    if o == 1 and rng.random() < 0.2:
        P["K"] = 0.0
    u = rng.random()
    P["n"] = 1 if u < 0.1 else int(rng.integers(2, min(9, nbig) + 1)) if u < 0.8 else int(rng.integers(min(6, nbig), nbig + 1))
    if rng.random() < 0.01:
        P["n"] = int(rng.integers(nbig, 3 * nbig))
    if name == LATTICE[0]:
        P["option"] = o
        if o in (4, 5) or rng.random() < 0.3:
            P["K2"] = float(b * np.exp(rng.uniform(-0.5, 0.5)))
        elif rng.random() < 0.5:
            P["K2"] = None
        if o == 7 and rng.random() < 0.5:
            P["K"] = None
    return name, gen.whole(rng, P, ("S1", "S2", "K", "K2"))


def case(rng, i, tier):
    name, P = draw(rng, 16 if tier == "quick" else 30, option=1 + i % 9)
    return {"name": name, "P": P, "rs": gen.sub(rng)}


def reference(name, P, call):
    a = {k: P.get(k) for k in ("S1", "S2", "t", "r", "b1", "b2", "sigma1", "sigma2", "rho", "K", "K2", "Q1", "Q2", "otype", "n")}
    return refs.spread_tree(**a, option=P.get("option") or NAMED[name], call=call)


def legs(name, P):
    """size of the payoff's terms anywhere near the money, as a price"""
    o = P.get("option") or NAMED[name]
    t = P["t"]
    g1 = np.exp(max(0, P["b1"] - P["r"], -P["r"]) * t)
    g2 = np.exp(max(0, P["b2"] - P["r"], -P["r"]) * t)
    a, b = P["Q1"] * P["S1"] * g1, P["Q2"] * P["S2"] * g2
    x = {8: a / b * np.exp(P["sigma2"] ** 2 * t * 2), 9: a * b * np.exp(abs(P["sigma1"] * P["sigma2"]) * t)}.get(o, a + b)
    return x + abs(P["K"] or 0) + abs(P.get("K2") or 0)


def run(c, m):
    name, P = c["name"], c["P"]
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    opt = P.get("option") or NAMED[name]
    m.saw("class:" + name)
    m.saw("style:" + P["otype"])
    if P["n"] == 1:
        m.saw("n=1")
    tol = 1e-11 * legs(name, P)
    m.trivial = True
    order = ("call", "put") if rng.random() < 0.5 else ("put", "call")
    for side in order:
        x = m.get(f"{name}.{side}", getattr(o, side))
        if x is None:
            return
        m.saw(f"payoff:{opt}:{side}")
        m.stratum(opt, side, P["otype"][:2], "b1" if P["b1"] else "b1=0", "Q" if P["Q1"] != P["Q2"] else "Q=", np.sign(P["rho"]), min(P["n"], 4))
        want = reference(name, P, side == "call")
        m.close(f"payoff {opt} {P['otype']} {side}", x, want, tol)
        if want > 1e-8 * legs(name, P):
            m.trivial = False
        if P["otype"] == "american":
            e = reference(name, dict(P, otype="european"), side == "call")
            if want > e + 1e-6 * legs(name, P):
                m.saw("early exercise")
        if name != LATTICE[0]:
            m.saw("named against general")
            G = dict(P, option=opt)
            g = m.get("BionomialSpreadAllTypes.__init__", lambda: api.cls(LATTICE[0])(**G))
            if g is None:
                return
            y = m.get(f"BionomialSpreadAllTypes.{side}", getattr(g, side))
            m.close(f"{side} of the named class", x, y, tol)
