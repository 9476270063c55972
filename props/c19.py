"""Heston-Nandi GARCH: simulated series and fits."""
import contextlib
import io

import numpy as np

from vf import gen, refs

ID = "C19"
CPU = 60
CHUNK = 20
COUNTS = {"quick": 2400, "thorough": 30000}
REQUIRED = {"simulations": 500, "burn-in": 150, "given innovations": 200, "random innovations": 150, "refiltered": 150, "fits": 120, "fit:symmetric": 40, "fit:asymmetric": 40,
            "fit improved": 60, "traced fits": 10, "lengths from innovations": 40, "integer innovations": 20, "burn-in variance recovered": 20, "likelihood evaluations": 100}
RULE = "one case = one simulated series, or one series fitted; every value of the series (or of the fit's report) is recomputed. Non-trivial: a series of at least 3 returns."
ASSUMPTIONS = ["stationary parameters; fits run with the optimiser's default or with an iteration cap, on series of 20 to 160 returns"]


def params(rng, wide=False):
    h0 = gen.logu(rng, 0.1, 0.6) ** 2 / 252 if not wide else gen.logu(rng, 5e-4, 0.2) ** 2
    p = float(rng.uniform(0.1, 0.97)) if not wide else float(rng.uniform(0.02, 0.999))
    beta = p * float(rng.uniform(0.3, 1.0))
    share = float(rng.uniform(0.05, 0.9))
    alpha = float(share * h0 * (1 - p))
    gamma = float(np.sqrt((p - beta) / alpha) * gen.pick(rng, 1, 1, -1, 0))
    return dict(lamb=float(gen.pick(rng, -0.5, 4.0, rng.uniform(-2, 8))), omega=float(h0 * (1 - p) - alpha), alpha=alpha, beta=float(beta), gamma=gamma, rf=float(gen.pick(rng, 0.0, rng.uniform(-1e-4, 5e-4))))


def case(rng, i, tier):
    Q = params(rng, bool(rng.random() < 0.3))
    if i % 5 < 3:
        c = {"kind": "sim", "Q": Q, "n": int(gen.pick(rng, 1, 2, 5, int(rng.integers(3, 200)), int(rng.integers(200, 900)) if rng.random() < 0.2 else 50)), "n_start": int(gen.pick(rng, 0, 0, 1, int(rng.integers(1, 60)))), "given": gen.pick(rng, "none", "inno", "both", "both", "start"),
             "np_seed": gen.sub(rng), "rs": gen.sub(rng), "lengths": bool(rng.random() < 0.25), "ints": bool(rng.random() < 0.1)}
        return c
    return {"kind": "fit", "Q": Q, "n": int(rng.integers(20, 160)), "rs": gen.sub(rng), "symmetric": bool(rng.random() < 0.5), "start": gen.pick(rng, "true", "near", "default"), "maxiter": gen.pick(rng, None, None, 1, 3, 10),
            "trace": bool(rng.random() < 0.1), "gamma0": float(gen.pick(rng, 0.0, 0.0, 50.0))}


def series(Q, z, h=None):
    """returns and variances of the model driven by z"""
    x = []
    if h is None:
        h = (Q["omega"] + Q["alpha"]) / (1 - Q["beta"] - Q["alpha"] * Q["gamma"] ** 2)
    hs = []
    for e in z:
        hs.append(h)
        s = h ** 0.5
        x.append(Q["rf"] + Q["lamb"] * h + s * e)
        h = Q["omega"] + Q["beta"] * h + Q["alpha"] * (e - Q["gamma"] * s) ** 2
    return np.array(x), np.array(hs)


def refilter(Q, x, h=None):
    """innovations, variances and negative log likelihood behind returns x"""
    if h is None:
        h = (Q["omega"] + Q["alpha"]) / (1 - Q["beta"] - Q["alpha"] * Q["gamma"] ** 2)
    zs, hs = [], []
    for v in x:
        if not h > 0:
            return np.full(len(x), np.nan), np.full(len(x), np.nan), np.nan
        s = h ** 0.5
        z = (v - Q["rf"] - Q["lamb"] * h) / s
        zs.append(z)
        hs.append(h)
        h = Q["omega"] + Q["beta"] * h + Q["alpha"] * (z - Q["gamma"] * s) ** 2
    z, h = np.array(zs), np.array(hs)
    return z, h, float(np.sum(0.5 * np.log(2 * np.pi) + 0.5 * np.log(h) + 0.5 * z * z))


def run(c, m):
    {"sim": sim, "fit": fit}[c["kind"]](c, m)


def sim(c, m):
    import finoptions as fo

    f = fo.heston_nandi_options.hngarch_sim
    Q, n, ns = c["Q"], c["n"], c["n_start"]
    rng = np.random.default_rng(c["rs"])
    m.saw("simulations")
    if ns:
        m.saw("burn-in")
    kw = dict(Q)
    if c["given"] in ("none", "start"):
        kw["n"] = n
    if ns:
        kw["n_start"] = ns
    draw = (lambda k: rng.integers(-2, 3, k)) if c["ints"] else rng.standard_normal
    if c["ints"] and c["given"] in ("inno", "both"):
        m.saw("integer innovations")
    z = zs = None
    if c["given"] in ("inno", "both"):
        z = kw["inno"] = draw(n)
        if not c["lengths"]:
            kw["n"] = n
        else:
            m.saw("lengths from innovations")
    if c["given"] in ("both", "start") and ns:
        zs = kw["inno_start"] = draw(ns)
        if c["lengths"]:
            del kw["n_start"]
    keep = {k: v.copy() for k, v in kw.items() if isinstance(v, np.ndarray)}
    seed = c["np_seed"]
    np.random.seed(seed)
    x = m.get("hngarch_sim", lambda: f(**kw))
    if x is None:
        return
    x = np.asarray(x)
    m.stratum("sim", c["given"], min(ns, 2), min(n, 3), np.sign(Q["gamma"]))
    for k, v in keep.items():
        m.check(np.array_equal(kw[k], v), "argument changed", lambda: f"hngarch_sim changed its argument {k}")
    if not m.check(x.shape == (n,), "length", lambda: f"{n} returns asked for (n_start={ns}), shape {x.shape}"):
        return
    m.trivial = n < 3
    if z is not None and (not ns or zs is not None):
        m.saw("given innovations")
        want, h = series(Q, np.concatenate((zs, z)) if ns else z)
        m.close("simulated returns", x, want[ns:], 1e-10 * (1 + abs(Q["lamb"])) * (np.sqrt(h[ns:]) + 1e-6) * 10)
    else:
        # drawn inside: the same state of numpy's generator gives the same series, another state another series
        np.random.seed(seed)
        y = m.get("hngarch_sim", lambda: f(**kw))
        m.check(np.array_equal(x, y), "reproducible", lambda: "the same random state gave another series")
        np.random.seed(seed + 1)
        y = m.get("hngarch_sim", lambda: f(**kw))
        m.check(not np.array_equal(x, y), "random", lambda: "the innovations do not depend on numpy's random state")
    if z is not None and ns and zs is None and abs(Q["lamb"]) > 1e-9:
        # innovations given, burn-in drawn: the first return tells the variance the burn-in ended with
        m.saw("burn-in variance recovered")
        disc = float(z[0]) ** 2 + 4 * Q["lamb"] * (x[0] - Q["rf"])
        roots = [(-z[0] + sg * np.sqrt(max(disc, 0.0))) / (2 * Q["lamb"]) for sg in (1, -1)]
        ok = False
        for s in roots:
            if s > 0:
                want, h = series(Q, z, s * s)
                # the root loses half the digits where the two meet
                ok = ok or bool(np.all(np.abs(x - want) <= 1e-5 * (1 + abs(Q["lamb"])) * np.sqrt(h)))
        m.check(ok, "recursion after burn-in", lambda: f"no starting variance explains the returns {x[:4]} from innovations {z[:4]}")
    if z is None:
        m.saw("random innovations")
        h0 = None
        if ns and zs is not None:
            _, h = series(Q, np.concatenate((zs, [0.0])))
            h0 = h[-1]
        zz, h, _ = refilter(Q, x, h0)
        if not ns or zs is not None:
            m.saw("refiltered")
            m.check(np.all(np.abs(zz) < 7.5), "innovation size", lambda: f"implied innovations reach {np.max(np.abs(zz))}")
            if n >= 100:
                m.check(0.5 < np.std(zz) < 1.6 and abs(np.mean(zz)) < 0.7, "innovation moments", lambda: f"implied innovations have mean {np.mean(zz)}, deviation {np.std(zz)}")
            kept = series(Q, zz, h0)[0]
            m.close("refiltered returns", x, kept, 1e-9 * (1 + np.abs(x)))
        else:
            top = (Q["omega"] + Q["alpha"]) / (1 - Q["beta"] - Q["alpha"] * Q["gamma"] ** 2)
            m.check(np.all(np.abs(x - Q["rf"]) < 60 * np.sqrt(top) * (1 + abs(Q["lamb"]))), "return size", lambda: f"returns up to {np.max(np.abs(x))}")


def fit(c, m):
    import finoptions as fo

    f = fo.heston_nandi_options.hngarch_fit
    rng = np.random.default_rng(c["rs"])
    Q, n = dict(c["Q"]), c["n"]
    if c["symmetric"]:
        # a symmetric world needs no asymmetry
        Q["gamma"] = 0.0
    x, _ = series(Q, rng.standard_normal(n))
    kw = dict(rf=Q["rf"], symmetric=c["symmetric"], trace=c["trace"])
    start = dict(lamb=-0.5, omega=float(np.var(x)), alpha=0.1 * float(np.var(x)), beta=0.1, gamma=0.0)
    if c["start"] != "default":
        k = 1.0 if c["start"] == "true" else float(np.exp(rng.uniform(-0.3, 0.3)))
        start = dict(lamb=Q["lamb"], omega=Q["omega"] * k, alpha=Q["alpha"] * k, beta=Q["beta"] * min(k, 1.0), gamma=Q["gamma"] * min(k, 1.0))
        kw.update(start)
    if c["symmetric"] and c["gamma0"]:
        kw["gamma"] = c["gamma0"]  # ignored: symmetric
        start["gamma"] = 0.0
    if c["maxiter"]:
        kw["options"] = {"maxiter": c["maxiter"]}
    m.saw("fits")
    m.saw("fit:" + ("symmetric" if c["symmetric"] else "asymmetric"))
    m.stratum("fit", c["symmetric"], c["start"], c["maxiter"])
    x0 = x.copy()
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        opt = m.get("hngarch_fit", lambda: f(x, **kw))
    if opt is None:
        return
    m.check(np.array_equal(x, x0), "argument changed", lambda: "hngarch_fit changed the series")
    text = buf.getvalue()
    if c["trace"]:
        m.saw("traced fits")
        m.check(text.count("Parameter Estimate") >= 2, "trace", lambda: f"trace printed {text[:200]!r}")
    else:
        m.check(text == "", "trace", lambda: f"printed without trace: {text[:200]!r}")
    S = dict(start, rf=Q["rf"])
    if c["symmetric"]:
        S["gamma"] = 0.0
    _, _, l0 = refilter(S, x)
    m.saw("likelihood evaluations")
    if l0 == l0:
        m.close("start likelihood", opt["value"], l0, 1e-7 * (1 + abs(l0)))
    est = np.asarray(opt["estimate"], dtype=float)
    if not m.check(est.shape == (5,), "estimate", lambda: f"estimate has shape {est.shape}"):
        return
    M = opt["model"]
    names = ("lamb", "omega", "alpha", "beta", "gamma")
    m.check(all(float(M[k]) == float(v) for k, v in zip(names, est)), "model", lambda: f"model {M} differs from estimate {est}")
    m.check(M["rf"] == Q["rf"], "model", lambda: f"risk-free rate {Q['rf']} reported as {M['rf']}")
    if c["symmetric"]:
        m.check(est[4] == 0, "symmetric", lambda: f"symmetric fit reports gamma {est[4]}")
    F = dict(zip(names, est), rf=Q["rf"])
    persistence = F["beta"] + F["alpha"] * F["gamma"] ** 2
    m.close("persistence", opt["persistence"], persistence, 1e-12 * (1 + abs(persistence)))
    m.close("long-run variance", opt["sigma2"], (F["omega"] + F["alpha"]) / (1 - persistence), 1e-10 * abs((F["omega"] + F["alpha"]) / (1 - persistence)))
    m.check(0 <= F["omega"] <= 1 and 0 <= F["alpha"] <= 1 and 0 <= F["beta"] <= 1, "range", lambda: f"estimates outside [0, 1]: {est}")
    z, h, l1 = refilter(F, x)
    if not l1 == l1:
        m.saw("non-stationary fit")
        m.check(not l0 == l0, "inadmissible", lambda: f"a fit started from admissible parameters reports inadmissible ones: {F}")
        return
    # parameters went through a logistic map and back: about 1e-12 relative on omega, amplified by the filter
    m.close("filtered variances", opt["h"], h, 1e-6 * h + 1e-15)
    m.close("filtered innovations", opt["z"], z, 1e-6 * (1 + np.abs(z)))
    m.close("reported likelihood", opt["minimum"], -l1 + n * np.sqrt(2 * np.pi), 1e-6 * (1 + abs(l1)))
    if l0 == l0:
        m.check(l1 <= l0 + 1e-6 * (1 + abs(l0)), "worse than the start", lambda: f"negative log likelihood {l1} of the fit, {l0} at its start")
        if l1 < l0 - 1e-3:
            m.saw("fit improved")
    m.trivial = False
