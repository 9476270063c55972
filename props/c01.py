"""European vanilla prices against the exact lognormal expectation."""
import numpy as np

from vf import api, gen, refs

ID = "C01"
CPU = 20
CHUNK = 400
COUNTS = {"quick": 60000, "thorough": 600000}
REQUIRED = {"price:call": 4000, "price:put": 4000, "class:GBSOption": 1000, "class:BlackScholesOption": 1000, "class:Black76Option": 1000, "route:set": 500}
RULE = (
    "one case = one market drawn from the strata (class, carry, moneyness, maturity, volatility, size, int/float "
    "arguments) and one way of making the object; call and put are both judged. Non-trivial: a price above 1e-9 of "
    "the legs was compared; distinct by parameters and class."
)
ASSUMPTIONS = [
    "scipy.special.ndtr is the normal distribution function to 1e-15",
    "prices are required to 1.1e-7 of S*exp((b-r)t)+K*exp(-rt): the documented polynomial normal distribution is accurate to 7.5e-8",
]
TOL = 1.1e-7


def case(rng, i, tier):
    P, lab = gen.market(rng, maxdev=float(gen.pick(rng, 3.0, 6.0, 12.0)), vmax=3.0, tmax=30.0)
    if rng.random() < 0.08:  # corners
        k = str(rng.choice(["t", "sigma", "K", "S", "short"]))
        if k == "t":
            P["t"] = gen.pick(rng, gen.logu(rng, 1e-7, 1e-3), 50.0)
        elif k == "sigma":
            P["sigma"] = gen.pick(rng, gen.logu(rng, 1e-4, 2e-2), gen.logu(rng, 3.0, 12.0))
        elif k == "K":
            P["K"] = P["S"] * gen.logu(rng, 1e-4, 1e4)
        elif k == "S":
            P["S"], P["K"] = [x * s for s in [gen.logu(rng, 1e-6, 1e8) / P["S"]] for x in (P["S"], P["K"])]
        else:
            P["t"], P["sigma"] = gen.logu(rng, 1e-5, 1e-2), gen.logu(rng, 1e-3, 5e-2)
        lab.append("corner:" + k)
    name = gen.pick(rng, "GBSOption", "BlackScholesOption", "Black76Option")
    if rng.random() < 0.04:  # the textbook carry identities, exactly
        P["b"] = P["r"]
    return {"cls": name, "P": P, "lab": lab, "rs": gen.sub(rng)}


def params(name, P):
    if name == "Black76Option":
        return {"FT": P["S"], "K": P["K"], "t": P["t"], "r": P["r"], "sigma": P["sigma"]}
    return dict(P)


def run(c, m):
    name = c["cls"]
    P = dict(c["P"])
    if name == "Black76Option":
        P["b"] = 0.0
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, params(name, P), rng)
    if o is None:
        return
    m.saw("class:" + name)
    for lb in c["lab"]:
        m.stratum(name, lb)
    sc = refs.gbs_scale(P["S"], P["K"], P["t"], P["r"], P["b"])
    m.trivial = True
    first = {}
    for side in rng.permutation(["call", "put", "call"]):
        side = str(side)
        v = m.get(f"{name}.{side}", getattr(o, side))
        if v is None:
            return
        want = refs.gbs(P["S"], P["K"], P["t"], P["r"], P["b"], P["sigma"], side == "call")
        m.saw("price:" + side)
        m.close(f"{side} price", v, want, TOL * sc)
        if want > 1e-9 * sc:
            m.trivial = False
        first.setdefault(side, v)
    # put-call parity does not depend on the distribution function at all
    fwd = P["S"] * np.exp((P["b"] - P["r"]) * P["t"]) - P["K"] * np.exp(-P["r"] * P["t"])
    m.close("put-call parity", first["call"] - first["put"], fwd, 2 * TOL * sc)
