"""Stratified generators of market data.  Everything returned is JSON data."""
import numpy as np


def logu(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def pick(rng, *xs):
    return xs[int(rng.integers(len(xs)))]


def market(rng, smin=1e-2, smax=1e5, tmin=1 / 365, tmax=20.0, vmin=0.02, vmax=2.0, rmin=-0.03, rmax=0.3,
           bmode=None, money=None, maxdev=3.0, ints=True):
    """One single-asset market.  Returns (params, stratum labels)."""
    lab = []
    S = pick(rng, logu(rng, smin, smax), 100.0, float(np.round(logu(rng, max(smin, 1), smax), 2)))
    S = min(max(S, smin), smax)
    t = pick(rng, logu(rng, tmin, tmax), 1.0, 0.5, 1 / 12, 0.25, 2.0)
    t = min(max(t, tmin), tmax)
    sigma = pick(rng, logu(rng, vmin, vmax), 0.2, 0.4)
    sigma = min(max(sigma, vmin), vmax)
    r = pick(rng, 0.0, 0.05, 0.02, float(rng.uniform(0, 0.15)), float(rng.uniform(0, 0.15)), float(rng.uniform(rmin, rmax)))
    r = min(max(r, rmin), rmax)
    bm = bmode or pick(rng, "zero", "r", "below", "above", "neg", "any")
    b = {
        "zero": 0.0,
        "r": r,
        "below": r - float(rng.uniform(0.0, 0.1)),
        "above": r + float(rng.uniform(0.0, 0.1)),
        "neg": -float(rng.uniform(0.0, 0.2)),
        "any": float(rng.uniform(-0.2, 0.3)),
    }[bm]
    sd = sigma * np.sqrt(t)
    mm = money or pick(rng, "atm", "atf", "near", "near", "mid", "wide")
    if mm == "atm":
        K = S
    elif mm == "atf":
        K = S * float(np.exp(b * t))
    elif mm == "near":
        K = S * float(np.exp(b * t + sd * rng.uniform(-0.7, 0.7)))
    elif mm == "mid":
        K = S * float(np.exp(b * t + sd * rng.uniform(-2, 2)))
    else:
        K = S * float(np.exp(b * t + sd * rng.uniform(-maxdev, maxdev)))
    lab += ["b:" + bm, "K:" + mm, "t:" + band(t, (0.08, 1, 5)), "v:" + band(sigma, (0.1, 0.5, 1)), "S:" + band(S, (1, 1e3)), "r:" + band(r, (0.0, 0.1))]
    if ints and rng.random() < 0.08 and S >= 5 and K >= 2:
        S, K = int(round(S)), int(round(K))
        if rng.random() < 0.5 and t >= 0.75:
            t = int(round(t))
        lab.append("int")
    P = dict(S=S, K=K, t=t, r=r, b=b, sigma=sigma)
    return P, lab


def whole(rng, P, keys, share=0.08):
    """some parameter sets with whole numbers, as a user types them"""
    if rng.random() < share:
        for k in keys:
            if P.get(k) is not None and abs(P[k]) >= 5 and rng.random() < 0.8:
                P[k] = int(round(P[k]))
    return P


def band(x, cuts):
    k = sum(x > c for c in cuts)
    return str(k)


def sub(rng):
    return int(rng.integers(2 ** 31))
