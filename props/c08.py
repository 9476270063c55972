"""Roll-Geske-Whaley prices against quadrature over the ex-dividend date."""
import numpy as np

from vf import api, gen, refs

ID = "C08"
CPU = 30
CHUNK = 40
COUNTS = {"quick": 16000, "thorough": 120000}
REQUIRED = {"optimal": 800, "not optimal": 400, "is_call_optimal": 2000, "D==0": 50, "route:set": 200}
RULE = (
    "one case = one stock, option and dividend; price and optimality are judged. Non-trivial: the price exceeds 1e-6 of "
    "spot plus strike. Dividends within 0.3 % of the strike of the optimality threshold are not priced (critical price unbounded)."
)
ASSUMPTIONS = ["the documented search tolerance of 1e-5 and the bivariate normal's 1e-7 are allowed for"]


def market(rng, vmin=0.05, vmax=1.0):
    S = gen.pick(rng, gen.logu(rng, 5, 2000), gen.logu(rng, 0.5, 1e5), 100.0, 80.0)
    t = gen.pick(rng, gen.logu(rng, 0.05, 3.0), 0.25, 1 / 3)
    td = t * float(gen.pick(rng, rng.uniform(0.02, 0.98), rng.uniform(0.001, 0.999), 0.5, 0.75))
    r = gen.pick(rng, 0.06, 0.0, float(rng.uniform(0, 0.12)), float(rng.uniform(0, 0.12)))
    sigma = gen.pick(rng, 0.3, gen.logu(rng, vmin, vmax))
    mm = gen.pick(rng, "atm", "near", "near", "mid", "mid") if rng.random() < 0.95 or vmin > 0.05 else "deep"
    sd = sigma * np.sqrt(t)
    K = S * float(np.exp(sd * {"atm": 0.0, "near": rng.uniform(-0.7, 0.7), "mid": rng.uniform(-2, 2), "deep": rng.uniform(-5, 5)}[mm]))
    thr = K * float(-np.expm1(-r * (t - td)))
    dm = gen.pick(rng, "zero", "below", "above", "above", "above", "big")
    if dm == "zero":
        D = 0.0
    elif dm == "below":
        D = thr * float(rng.uniform(0.05, 0.9))
    elif dm == "above":
        D = max(thr * 1.15, thr + 0.003 * K) + float(rng.uniform(0, 0.08)) * S
    else:
        D = max(thr * 1.15, thr + 0.003 * K) + float(rng.uniform(0.05, 0.3)) * S
    D = min(D, 0.6 * S)
    if abs(D - thr) < 0.003 * K and D > thr:
        D = thr + 0.003 * K
    return dict(S=S, K=K, t=t, td=td, r=r, D=D, sigma=sigma), ["D:" + dm, "K:" + mm, "t:" + gen.band(t, (0.2, 1)), "td:" + gen.band(td / t, (0.2, 0.8)), "v:" + gen.band(sigma, (0.15, 0.5)), "r:" + gen.band(r, (0.0, 0.05))]


def case(rng, i, tier):
    P, lab = market(rng)
    gen.whole(rng, P, ("S",))
    return {"P": P, "lab": lab, "rs": gen.sub(rng)}


def run(c, m):
    P = dict(c["P"])
    name = "RollGeskeWhaleyOption"
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng)
    if o is None:
        return
    for lb in c["lab"]:
        m.stratum(lb)
    S, K, t, td, r, D, v = (P[k] for k in ("S", "K", "t", "td", "r", "D", "sigma"))
    thr = K * (1 - np.exp(-r * (t - td)))
    opt = D > thr
    if D == 0:
        m.saw("D==0")
    ask = rng.random() < 0.5
    p = None
    if not ask:
        p = m.get(f"{name}.call", o.call)
    if abs(D - thr) > 1e-12 * K or D == 0:
        ans = m.get(f"{name}.is_call_optimal", o.is_call_optimal)
        m.saw("is_call_optimal")
        m.check(ans is not None and bool(ans) == bool(opt), "is_call_optimal", lambda: f"is_call_optimal() = {ans}, but dividend {D} vs interest {thr}")
    if ask:
        p = m.get(f"{name}.call", o.call)
    if p is None:
        return
    want, crit = refs.rgw_call(S, K, t, td, r, D, v)
    m.saw("optimal" if opt else "not optimal")
    tol = 6e-7 * (S + K) + 1.5e-5
    m.trivial = not want > 1e-6 * (S + K)
    m.close("call price" + (" (optimal)" if opt else " (european)"), p, want, tol)
    Sx = S - D * np.exp(-r * td)
    hold = refs.gbs(Sx, K, t, r, r, v)
    m.check(p >= hold - tol, "below never exercising", lambda: f"price {p} below the value {hold} of never exercising early")
    if K > D:
        ex = refs.gbs(Sx, K - D, td, r, r, v)
        m.check(p >= ex - tol, "below always exercising", lambda: f"price {p} below the value {ex} of always exercising before the dividend")
