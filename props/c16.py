"""The Monte Carlo engine, watched through its own plug-in interface."""
import contextlib
import io
import re
import warnings

import numpy as np
from scipy.special import ndtri
from scipy.stats import qmc

from vf import gen, refs

ID = "C16"
CPU = 30
CHUNK = 25
COUNTS = {"quick": 6000, "thorough": 60000}
REQUIRED = {
    "loops": 3000, "antithetic": 300, "standardization": 300, "antithetic+standardization": 100, "trace": 150, "given eps": 100, "custom classes": 300, "builtin vanilla": 300,
    "builtin asian": 200, "sobol samples": 500, "faulty sobol samples": 50, "resampled": 50, "unscrambled": 200, "later sample": 400, "converged": 100, "asian parity": 30, "second run": 200, "infinite payoff": 15,
    "side:call": 300, "side:put": 300,
}
RULE = (
    "one case = one configuration of the engine, run one to three times; the recorded innovations, paths and payoffs of every loop are replayed against the "
    "estimates returned. Non-trivial: a positive estimate, or a sampler history with a fault."
)
ASSUMPTIONS = [
    "Sobol engines are seeded from the case, so statistical comparisons are reproducible; they use eight standard errors of plain Monte Carlo",
    "a sampler fault is a Sobol point at 0 or 1 put into a real sample",
]
Sobol0, Sobol1 = qmc.Sobol.__init__, qmc.Sobol.random  # before any recording
_log = None  # events of the running case


def emit(kind, **k):
    if _log is not None:
        _log.append((kind, k))


# --------------------------------------------------------------------------
# recording plug-ins
# --------------------------------------------------------------------------
def plugins(spec, m):
    import finoptions as fo

    mc = fo.monte_carlo_options

    if spec["inno"] == "sobol":
        base_i = mc.NormalSobolInnovations
    else:
        rng = np.random.default_rng(spec["inno_seed"])
        kind = spec["inno"]

        class Base(mc.Innovations):
            def sample_innovation(self, init=False):
                shape = (self.mc_paths, self.path_length)
                if kind == "normal":
                    return rng.standard_normal(shape)
                if kind == "skewed":
                    return rng.exponential(size=shape) * 1.3 - 0.4
                x = rng.integers(0, 2, shape) * 2.0 - 1.0 + 0.1
                x[0, 0], x[-1, -1] = 1.1, -0.9  # never constant: standardization needs a deviation
                return x

        base_i = Base

    class Inno(base_i):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            emit("inno", paths=self.mc_paths, length=self.path_length)

        def sample_innovation(self, *a, **k):
            e = super().sample_innovation(*a, **k)
            emit("sample", eps=np.array(e, copy=True), paths=self.mc_paths, length=self.path_length)
            return e

    if spec["path"] == "wiener":
        base_p = mc.WienerPath
    else:

        class base_p(mc.Path):
            def generate_path(self):
                return self.b * self.dt + self.sigma * np.sqrt(self.dt) * np.tanh(self.epsilon)

    class Path(base_p):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            emit("path", id=id(self), eps=np.array(self.epsilon, copy=True), sigma=self.sigma, dt=self.dt, b=self.b, obj=self)

        def generate_path(self, *a, **k):
            x = super().generate_path(*a, **k)
            emit("increments", id=id(self), value=np.array(x, copy=True))
            return x

    if spec["payoff"] == "vanilla":
        base_y = mc.PlainVanillaPayoff
    elif spec["payoff"] == "asian":
        base_y = mc.ArithmeticAsianPayoff
    else:
        inf = spec["payoff"] == "infinite"

        class base_y(mc.Payoff):
            def call(self):
                x = self.path.generate_path()
                v = np.exp(-self.r * self.t) * np.max(self.S * np.exp(np.cumsum(x, axis=1)), axis=1) / self.K
                if inf:
                    v[0] = np.inf
                return v

            def put(self):
                x = self.path.generate_path()
                return (self.K + self.b) * np.exp(-self.r * self.t) * (np.sum(x, axis=1) < 0) * self.sigma

    class Payoff(base_y):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            emit("payoff", path=self.path, pars={q: getattr(self, q) for q in ("S", "K", "t", "r", "b", "sigma")})

        def call(self):
            v = super().call()
            emit("value", side="call", value=np.array(v, copy=True), obj=self)
            return v

        def put(self):
            v = super().put()
            emit("value", side="put", value=np.array(v, copy=True), obj=self)
            return v

    return Inno, Path, Payoff


class sampler:
    """seeds scipy's Sobol engines, records every draw, and puts boundary
    points into the first `faults` draws"""

    def __init__(self, seed, faults=(), where=0):
        self.seed, self.faults, self.where = seed, list(faults), where

    def __enter__(self):
        self.init, self.random = qmc.Sobol.__init__, qmc.Sobol.random
        init, random, me = self.init, self.random, self
        depth = [0]

        def __init__(s, d, *a, **k):
            if not any(q in k for q in ("seed", "rng")) and len(a) < 2:
                me.seed += 1
                k["seed"] = me.seed
            init(s, d, *a, **k)

        def rnd(s, *a, **k):
            depth[0] += 1
            try:
                x = random(s, *a, **k)
            finally:
                depth[0] -= 1
            if depth[0] == 0 and me.faults:
                f = me.faults.pop(0)
                x = np.array(x, copy=True)
                x.reshape(-1)[me.where % x.size] = f
                emit("sobol", points=x.copy(), fault=f)
            elif depth[0] == 0:
                emit("sobol", points=np.array(x, copy=True), fault=None)
            return x

        qmc.Sobol.__init__, qmc.Sobol.random = __init__, rnd
        return self

    def __exit__(self, *e):
        qmc.Sobol.__init__, qmc.Sobol.random = self.init, self.random


# --------------------------------------------------------------------------
# cases
# --------------------------------------------------------------------------
def case(rng, i, tier):
    P, _ = gen.market(rng, smin=1, smax=500, tmin=0.05, tmax=2.0, vmin=0.05, vmax=0.8, rmin=0.0, rmax=0.15, maxdev=1.5)
    kind = ["record", "record", "record", "record", "converge", "sampler"][i % 6]
    c = {"kind": kind, "P": P, "rs": gen.sub(rng)}
    if kind == "record":
        payoff = gen.pick(rng, "vanilla", "vanilla", "asian", "custom", "infinite" if rng.random() < 0.3 else "custom")
        c["spec"] = {"inno": gen.pick(rng, "sobol", "sobol", "normal", "skewed", "coin"), "inno_seed": gen.sub(rng), "path": gen.pick(rng, "wiener", "wiener", "custom"), "payoff": payoff}
        c.update(loops=int(rng.integers(1, 8)), length=int(rng.integers(1, 13)), paths=int(gen.pick(rng, 2, 4, 8, 16, 32, 64, int(rng.integers(2, 60)))),
                 antithetic=bool(rng.random() < 0.5), standardization=bool(rng.random() < 0.5), trace=bool(rng.random() < 0.35), given=bool(rng.random() < 0.2),
                 runs=[gen.pick(rng, "call", "put") for _ in range(int(rng.integers(1, 4)))])
        u = rng.random()
        if u < 0.1:
            c.update(loops=int(rng.integers(1, 3)), runs=[gen.pick(rng, "call", "put") for _ in range(int(rng.integers(5, 12)))])
        elif u < 0.14:
            c.update(loops=int(rng.integers(8, 60)), paths=int(rng.integers(2, 9)))
        elif u < 0.18:
            c.update(length=int(rng.integers(13, 130)), paths=int(rng.integers(2, 20)))
        if rng.random() < 0.25:
            c["P"] = gen.market(rng, smin=0.01, smax=1e5, tmin=1 / 365, tmax=10.0, vmin=0.01, vmax=1.5, maxdev=2.5)[0]
        if payoff == "infinite":
            c.update(runs=["call"], trace=False)
        if c["spec"]["inno"] == "sobol" and rng.random() < 0.4:
            c["faults"] = [gen.pick(rng, 0.0, 0.0, 1.0) for _ in range(int(rng.integers(1, 4)))]
    elif kind == "converge":
        c.update(payoff=gen.pick(rng, "vanilla", "vanilla", "asian"), loops=int(rng.integers(1, 5)), length=int(gen.pick(rng, 1, 2, 4, 8, 16)), paths=int(gen.pick(rng, 512, 1024, 2048)),
                 antithetic=bool(rng.random() < 0.5), standardization=bool(rng.random() < 0.4))
    else:
        c.update(paths=int(gen.pick(rng, 1, 2, 3, 5, 8, 16, 33, 64)), length=int(rng.integers(1, 20)), scramble=gen.pick(rng, None, True, False), faults=[gen.pick(rng, 0.0, 0.0, 1.0) for _ in range(int(rng.integers(0, 5)))])
        c["more"] = [gen.pick(rng, None, True, False, False) for _ in range(int(rng.integers(0, 4)))]
        if c["scramble"] is False or False in c["more"]:
            c["faults"] = []
    return c


def run(c, m):
    global _log
    _log = []
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            {"record": record, "converge": converge, "sampler": sample_only}[c["kind"]](c, m)
    finally:
        _log = None


def record(c, m):
    import finoptions as fo

    P, spec = c["P"], c["spec"]
    Inno, Path, Payoff = plugins(spec, m)
    eps = None
    if c["given"] and spec["inno"] == "sobol":
        eps = np.random.default_rng(c["rs"]).standard_normal((c["paths"], c["length"]))
    kw = dict(trace=c["trace"], antithetic=c["antithetic"], standardization=c["standardization"], eps=eps)
    eps0 = None if eps is None else eps.copy()
    with sampler(c["rs"], c.get("faults", ()) if eps is None else (), c["rs"]):
        o = m.get("MonteCarloOption.__init__", lambda: fo.monte_carlo_options.MonteCarloOption(
            c["loops"], c["length"], c["paths"], *[P[k] for k in ("S", "K", "t", "r", "b", "sigma")], Inno, Path, Payoff, **kw))
        if o is None:
            return
        m.stratum(spec["inno"], spec["path"], spec["payoff"], *[int(c[k]) for k in ("antithetic", "standardization", "trace")])
        m.trivial = True
        past, held = [], []
        for k, side in enumerate(c["runs"]):
            _log.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                out = m.get(f"MonteCarloOption.{side}", getattr(o, side))
            if out is None:
                return
            log = list(_log)
            if spec["payoff"] == "infinite":
                m.saw("infinite payoff")
                m.trivial = False
                m.check(any(issubclass(w.category, Warning) for w in ws), "silent infinity", lambda: "a loop's estimate is infinite and no warning was given")
                m.check(not (isinstance(out, np.ndarray) and out.dtype.kind == "f" and np.all(np.isfinite(out))), "finite from infinite", lambda: f"payoffs of infinite mean are reported as {out!r}")
                return
            replay_log(c, m, side, out, log, eps0)
            if m.violations:
                return
            for old, was in held:
                m.check(np.array_equal(old, was, equal_nan=True), "result changed", lambda: f"the estimates of an earlier run were {was} and are now {old}")
            held.append((out, np.array(out, copy=True)))
            m.saw("side:" + side)
            if k:
                m.saw("second run")
            if eps is None:
                fresh = [e["eps"] for kind, e in log if kind == "sample"]
                if c["length"] * c["paths"] >= 8 and spec["inno"] != "coin":
                    same = any(np.array_equal(a, b) for a in fresh for b in past) or any(np.array_equal(fresh[i], fresh[j]) for i in range(len(fresh)) for j in range(i))
                    m.check(not same, "reused innovations", lambda: "two loops used the same random sample")
                past += fresh
            text = buf.getvalue()
            if c["trace"]:
                trace(m, out, text)
            else:
                m.check(text == "", "output", lambda: f"printed without trace: {text[:200]!r}")
            if np.any(out > 0):
                m.trivial = False
    if eps is not None:
        m.check(np.array_equal(eps, eps0), "argument changed", lambda: "the array of given innovations was modified")


def replay_log(c, m, side, out, log, given):
    P, spec = c["P"], c["spec"]
    L = c["loops"]
    if not m.check(isinstance(out, np.ndarray) and out.shape == (L,), "shape", lambda: f"{L} loops returned {type(out).__name__} {np.shape(out)}"):
        return
    samples = [e for k, e in log if k == "sample"]
    paths = [e for k, e in log if k == "path"]
    payoffs = [e for k, e in log if k == "payoff"]
    values = [e for k, e in log if k == "value" and e["side"] == side]
    if not m.check(len(samples) == len(paths) == len(payoffs) == len(values) == L, "loops", lambda: f"{L} loops drew {len(samples)} samples, made {len(paths)} paths, {len(payoffs)} payoffs and {len(values)} valuations"):
        return
    m.saw("loops", L)
    for q in ("antithetic", "standardization", "trace"):
        if c[q]:
            m.saw(q)
    if c["antithetic"] and c["standardization"]:
        m.saw("antithetic+standardization")
    if spec["payoff"] == "custom":
        m.saw("custom classes")
    else:
        m.saw("builtin " + spec["payoff"])
    if given is not None:
        m.saw("given eps")
    for k in range(L):
        e = samples[k]["eps"]
        m.check(samples[k]["paths"] == c["paths"] and samples[k]["length"] == c["length"], "sample size asked for", lambda: f"innovations made for {samples[k]['paths']} paths of length {samples[k]['length']}")
        if given is not None:
            m.check(np.array_equal(e, given), "given eps", lambda: "the innovations sampled are not the ones passed in")
        elif not m.check(e.shape == (c["paths"], c["length"]) and np.all(np.isfinite(e)), "innovations", lambda: f"innovations of shape {e.shape}, finite: {np.all(np.isfinite(e))}"):
            return
        x = np.concatenate((e, -e)) if c["antithetic"] else e
        if c["standardization"]:
            x = x - np.sum(x) / x.size
            sd = np.sqrt(np.sum(x * x) / x.size)
            x = x / sd
        p = paths[k]
        scale = 1 + np.max(np.abs(x))
        if not m.check(p["eps"].shape == x.shape, "path innovations", lambda: f"loop {k}: the path received innovations of shape {p['eps'].shape}, expected {x.shape} (antithetic={c['antithetic']})"):
            return
        m.close("path innovations", p["eps"], x, 1e-9 * scale)
        m.close("path parameters", [p["sigma"], p["dt"], p["b"]], [P["sigma"], P["t"] / c["length"], P["b"]], 1e-12 * (1 + P["t"]))
        y = payoffs[k]
        m.check(y["path"] is p["obj"], "payoff path", lambda: f"loop {k}: the payoff was given another loop's path")
        m.close("payoff parameters", [y["pars"][q] for q in P], [P[q] for q in P], [1e-12 * (1 + abs(P[q])) for q in P])
        v = values[k]["value"]
        if not m.check(np.shape(v) == (x.shape[0],), "payoffs", lambda: f"loop {k}: {np.shape(v)} payoffs for {x.shape[0]} paths"):
            return
        m.close("estimate", out[k], np.sum(v) / len(v), 1e-12 * (1 + np.max(np.abs(v))))
        # the built-in pieces against their definitions
        if spec["path"] == "wiener":
            inc = (P["b"] - P["sigma"] ** 2 / 2) * (P["t"] / c["length"]) + P["sigma"] * np.sqrt(P["t"] / c["length"]) * x
            for q in [q for kind, q in log if kind == "increments" and q["id"] == p["id"] and q["value"].shape == inc.shape]:
                m.close("Wiener increments", q["value"], inc, 1e-9 * scale)
        else:
            inc = P["b"] * P["t"] / c["length"] + P["sigma"] * np.sqrt(P["t"] / c["length"]) * np.tanh(x)
        if spec["payoff"] in ("vanilla", "asian"):
            lev = P["S"] * np.exp(np.cumsum(inc, axis=1))
            end = lev[:, -1] if spec["payoff"] == "vanilla" else np.sum(lev, axis=1) / c["length"]
            z = 1 if side == "call" else -1
            want = np.exp(-P["r"] * P["t"]) * np.maximum(z * (end - P["K"]), 0)
            m.close(f"{spec['payoff']} {side} payoffs", v, want, 1e-9 * scale * (end + P["K"]))
    if spec["inno"] == "sobol" and given is None:
        check_sobol(m, log, samples)


def check_sobol(m, log, samples):
    """innovations are the normal quantiles of the Sobol points drawn for them"""
    draws = [e for k, e in log if k == "sobol"]
    m.saw("sobol samples", len(samples))
    faulty = sum(d["fault"] is not None for d in draws)
    m.saw("faulty sobol samples", faulty)
    good = [ndtri(d["points"]) for d in draws]
    if faulty and len(draws) > len(samples):
        m.saw("resampled")
        m.trivial = False
    for s in samples:
        ok = any(g.shape == s["eps"].shape and np.all(np.abs(g - s["eps"]) <= 1e-8 * (1 + np.abs(g))) for g in good if np.all(np.isfinite(g)))
        # where a fault was injected, repairing the sample in place is as good as drawing anew
        if not ok and faulty:
            ok = any(g.shape == s["eps"].shape and np.sum(np.abs(g - s["eps"]) <= 1e-8 * (1 + np.abs(s["eps"]))) >= g.size - np.sum(~np.isfinite(g)) for g in good)
        m.check(ok, "normal quantiles", lambda: f"innovations of shape {s['eps'].shape} are not the normal quantiles of any Sobol sample drawn")


def trace(m, out, text):
    m.saw("trace checked")
    rows = re.findall(r"Loop:\s+(\d+)\s*:\s*(\S+)\s+(\S+)", text)
    if not m.check(len(rows) == len(out), "trace", lambda: f"{len(out)} loops, {len(rows)} trace lines: {text[:300]!r}"):
        return
    for k, (i, a, b) in enumerate(rows):
        m.check(int(i) == k, "trace", lambda: f"line {k} of the trace is labelled {i}")
        try:
            a, b = float(a), float(b)
        except ValueError:
            m.violate("trace", f"line {k} of the trace shows {a!r} {b!r}")
            return
        cum = np.sum(out[: k + 1]) / (k + 1)
        m.close("trace estimate", a, out[k], 1e-9 * (1 + abs(out[k])))
        m.close("trace running average", b, cum, 1e-9 * (1 + abs(cum)))


def converge(c, m):
    import finoptions as fo

    mc = fo.monte_carlo_options
    P = c["P"]
    payoff = {"vanilla": mc.PlainVanillaPayoff, "asian": mc.ArithmeticAsianPayoff}[c["payoff"]]
    with sampler(c["rs"]):
        o = m.get("MonteCarloOption.__init__", lambda: mc.MonteCarloOption(
            c["loops"], c["length"], c["paths"], *[P[k] for k in ("S", "K", "t", "r", "b", "sigma")], mc.NormalSobolInnovations, mc.WienerPath, payoff,
            antithetic=c["antithetic"], standardization=c["standardization"]))
        if o is None:
            return
        got = {s: m.get(f"MonteCarloOption.{s}", getattr(o, s)) for s in ("call", "put")}
    if any(v is None for v in got.values()):
        return
    S, K, t, r, b, v = (P[k] for k in ("S", "K", "t", "r", "b", "sigma"))
    N = c["loops"] * c["paths"]
    m.stratum("converge", c["payoff"], c["length"], c["antithetic"], c["standardization"])
    # standard deviation of a discounted payoff is at most that of the asset
    sd = S * np.exp((b - r) * t) * np.sqrt(np.expm1(v * v * t))
    cf, df = np.exp((b - r) * t), np.exp(-r * t)
    if c["payoff"] == "vanilla":
        for s in got:
            m.saw("converged")
            err = 8 * min(sd, K * df if s == "put" else np.inf) / np.sqrt(N)
            m.close(f"Monte Carlo {s}", np.mean(got[s]), refs.gbs(S, K, t, r, b, v, s == "call"), err)
    else:
        m.saw("asian parity")
        n = c["length"]
        mean = S * np.mean(np.exp(b * t * np.arange(1, n + 1) / n))
        lim = S * np.exp(max(b, 0) * t) * df * np.sqrt(np.expm1(v * v * t))
        # call and put come from separate samples
        m.close("Asian parity", np.mean(got["call"]) - np.mean(got["put"]), df * (mean - K), 12 * lim / np.sqrt(N))
        # an average is worth no more than the most valuable single date (and is bounded below by its forward)
        top = max(np.exp(-r * t) * refs.black(S * np.exp(b * t * k / n), K, v * np.sqrt(t * k / n), 1.0, True) for k in range(1, n + 1))
        m.check(np.mean(got["call"]) <= top + 8 * lim / np.sqrt(N), "Asian bound", lambda: f"Asian call {np.mean(got['call'])} above every single-date call {top}")


def sample_only(c, m):
    """a history of samples drawn from one object"""
    import finoptions as fo

    inno = fo.monte_carlo_options.NormalSobolInnovations(c["paths"], c["length"])
    flags = [c["scramble"], *c["more"]]
    n = len(flags) * c["paths"] + 1
    plain = None
    with sampler(c["rs"], c["faults"], c["rs"]):
        for j, flag in enumerate(flags):
            _log.clear()
            kw = {} if flag is None else {"scramble": flag}
            e = m.get("NormalSobolInnovations.sample_innovation", lambda: inno.sample_innovation(**kw))
            if e is None:
                return
            log = list(_log)
            e = np.asarray(e)
            m.stratum("sampler", flag, len(c["faults"]), j and flags[j - 1])
            if not m.check(e.shape == (c["paths"], c["length"]) and bool(np.all(np.isfinite(e))), "innovations", lambda: f"Sobol innovations of shape {e.shape}, finite: {np.all(np.isfinite(e))}, faults {c['faults']}"):
                return
            if j:
                m.saw("later sample")
            if flag is False or j:
                if plain is None:
                    q = qmc.Sobol.__new__(qmc.Sobol)
                    Sobol0(q, c["length"], scramble=False)
                    q.fast_forward(1)
                    plain = ndtri(Sobol1(q, n))
                # the plain sequence starts after its first point, the origin; a later sample may start over or go on
                block = any(np.max(np.abs(plain[k : k + c["paths"]] - e)) <= 1e-8 for k in range(n - c["paths"] + 1)) if j else None
            if flag is False:
                m.saw("unscrambled")
                if j == 0:
                    m.close("plain Sobol normals", e, plain[: c["paths"]], 1e-8)
                else:
                    m.check(block, "plain Sobol normals", lambda: f"sample {j} of {flags}: an unscrambled sample is no part of the Sobol sequence")
            else:
                check_sobol(m, log, [{"eps": e}])
                if j and not any(c["faults"]):
                    m.check(not block, "scrambled Sobol normals", lambda: f"sample {j} of {flags}: a scrambled sample is the plain Sobol sequence")
