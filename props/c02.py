"""Miltersen-Schwartz prices against quadrature of the three-factor volatilities."""
import numpy as np

from vf import api, gen, refs

ID = "C02"
CPU = 20
CHUNK = 200
COUNTS = {"quick": 12000, "thorough": 300000}
REQUIRED = {"price:call": 3000, "price:put": 3000, "route:set": 300}
RULE = (
    "one case = one valid three-factor market (positive definite correlations, T >= t, mean reversions 0.05..6); "
    "call and put are compared with the quadrature model. Non-trivial: price above 1e-9 of Pt*(FT+K)."
)
ASSUMPTIONS = [
    "variance and covariance of the futures price are integrals of smooth volatilities, taken by 60-point Gauss-Legendre",
    "prices are required to 1.5e-7 of Pt*(FT+K)",
]


def corr(rng):
    """a positive definite correlation triple (SE, SF, EF)"""
    mode = int(rng.integers(5))
    if mode == 0:
        return 0.0, 0.0, 0.0
    if mode == 1:
        return 0.805, 0.0805, 0.1243
    a = rng.normal(size=(3, 3)) + (0.0 if mode < 4 else 0.8)
    c = a @ a.T + 0.05 * np.eye(3)
    d = np.sqrt(np.diag(c))
    c = c / np.outer(d, d)
    return float(c[0, 1]), float(c[0, 2]), float(c[1, 2])


def market(rng):
    t = gen.pick(rng, gen.logu(rng, 0.01, 6.0), 0.25, 1.0)
    T = t if rng.random() < 0.2 else t + gen.logu(rng, 0.01, 5.0)
    FT = gen.whole(rng, {"FT": gen.logu(rng, 0.1, 1e5)}, ("FT",))["FT"]
    se, sf, ef = corr(rng)
    P = dict(
        Pt=float(gen.pick(rng, np.exp(-0.05 * t), rng.uniform(0.4, 1.05), 1.0)),
        FT=FT,
        K=FT,
        t=t,
        T=T,
        sigmaS=gen.pick(rng, 0.266, gen.logu(rng, 0.05, 1.0)),
        sigmaE=gen.pick(rng, 0.249, gen.logu(rng, 0.01, 0.8), gen.logu(rng, 0.01, 0.8), 0.0),
        sigmaF=gen.pick(rng, 0.0096, gen.logu(rng, 0.001, 0.15), gen.logu(rng, 0.001, 0.15), 0.0),
        rhoSE=se,
        rhoSF=sf,
        rhoEF=ef,
        KappaE=gen.pick(rng, 1.045, gen.logu(rng, 0.05, 6.0), gen.logu(rng, 0.03, 12.0)),
        KappaF=gen.pick(rng, 0.2, gen.logu(rng, 0.05, 6.0), gen.logu(rng, 0.03, 12.0), 1.045),
    )
    v, cv = refs.ms_moments(t, T, *(P[k] for k in ("sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")))
    sd = np.sqrt(max(v, 1e-12))
    mode = int(rng.integers(4))
    if mode:
        P["K"] = float(P["FT"] * np.exp(-cv + sd * rng.normal() * (0.5, 1.0, 2.0)[mode - 1]))
    lab = ["K:" + str(mode), "t:" + gen.band(t, (0.1, 1, 3)), "gap:" + gen.band(T - t, (0, 0.2, 1)), "kE:" + gen.band(P["KappaE"], (0.3, 2)), "kF:" + gen.band(P["KappaF"], (0.3, 2)), "sF:" + gen.band(P["sigmaF"], (0.02,))]
    return P, lab, float(sd)


def case(rng, i, tier):
    while True:
        P, lab, sd = market(rng)
        if sd > 0.02:
            break
    return {"P": P, "lab": lab, "rs": gen.sub(rng)}


def run(c, m):
    P = dict(c["P"])
    rng = np.random.default_rng(c["rs"])
    name = "MiltersenSchwartzOption"
    o = api.build(m, name, P, rng)
    if o is None:
        return
    for lb in c["lab"]:
        m.stratum(lb)
    v, cv = refs.ms_moments(P["t"], P["T"], *(P[k] for k in ("sigmaS", "sigmaE", "sigmaF", "rhoSE", "rhoSF", "rhoEF", "KappaE", "KappaF")))
    sc = P["Pt"] * (P["FT"] * max(1.0, np.exp(-cv)) + P["K"])
    m.trivial = True
    for side in ("put", "call") if rng.random() < 0.5 else ("call", "put"):
        p = m.get(f"{name}.{side}", getattr(o, side))
        if p is None:
            return
        want = refs.black(P["FT"] * np.exp(-cv), P["K"], np.sqrt(v), P["Pt"], side == "call")
        m.saw("price:" + side)
        m.close(f"{side} price", p, want, 1.5e-7 * sc)
        if want > 1e-9 * sc:
            m.trivial = False
