"""What a query does to the world around it: nothing."""
import contextlib
import decimal
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import tempfile
import threading
import warnings

import numpy as np

from props import c07, c17, c19
from vf import api, gen

ID = "C23"
CPU = 60
CHUNK = 20
COUNTS = {"quick": 1500, "thorough": 20000}
REQUIRED = {"ops": 5000, "refused": 500, "printed": 150, "plots": 60, "beside another figure": 30, "monte carlo": 60, "simulations": 100, "seeded simulations": 60, "given innovations": 40, "fits": 30, "arrays": 40,
            "heston-nandi prices": 40, "implied volatilities": 150, "repeated in another world": 2500, "failed plug-in": 20, **{f"class:{c}": 50 for c in api.CLASSES}}
RULE = (
    "one case = a handful of requests, answered, refused or failing, between snapshots of the process: numpy's random state, error handling and print options, Python's "
    "random state, warning filters, matplotlib's settings and open figures, decimal context, locale, environment, working directory and its files, threads, standard streams. "
    "Non-trivial: at least one request answered."
)
ASSUMPTIONS = ["a figure left open by plot() in pyplot's register, as pyplot itself does, is a result and not a side effect"]


def rc():
    import matplotlib

    return dict(dict.items(matplotlib.rcParams))


def figure(f):
    """what a figure shows, by count"""
    return (len(f.axes), [(len(a.texts), len(a.lines), a.get_title(), a.get_xlabel()) for a in f.axes])


def world(cwd):
    """what a query must leave as it was"""
    from matplotlib import pyplot as plt
    from matplotlib._pylab_helpers import Gcf

    r = np.random.get_state()
    return {
        "numpy's random state": (r[0], r[1].tobytes(), r[2:]),
        "Python's random state": hash(random.getstate()),
        "numpy's error handling": (np.geterr(), np.geterrcall()),
        "numpy's print options": repr(np.get_printoptions()),
        "the warning filters": repr(warnings.filters),
        "matplotlib's settings": rc(),
        "the number of open figures": len(plt.get_fignums()),
        "pyplot's interactive mode": plt.isinteractive(),
        "the decimal context": repr(decimal.getcontext()),
        "the locale": locale.setlocale(locale.LC_ALL),
        "the environment": dict(os.environ),
        "the working directory": os.getcwd(),
        "the files in the working directory": sorted(os.listdir(cwd)),
        "the number of threads": threading.active_count(),
        "the import path": list(sys.path),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
        "signal handlers": (signal.getsignal(signal.SIGINT), signal.getsignal(signal.SIGALRM)),
        "the figures open before": {k: figure(f.canvas.figure) for k, f in Gcf.figs.items()},
        "the recursion limit": sys.getrecursionlimit(),
        "garbage collection": gc.isenabled(),
        "tracing": (sys.gettrace(), sys.getprofile(), threading.gettrace()),
        "the streams": (sys.stdout, sys.stderr, sys.stdin),
    }


def case(rng, i, tier):
    kind = ["option", "option", "option", "option", "option", "plot", "mc", "sim", "option", "option", "fit" if i % 24 < 12 else "hn", "sim"][i % 12]
    c = {"kind": kind, "rs": gen.sub(rng), "world": gen.sub(rng)}
    if kind == "option":
        c["cls"] = list(api.CLASSES)[(i // 12 + i) % len(api.CLASSES)]
        c["P"] = api.sample(c["cls"], rng, wide_share=0.3)
        if c["cls"] in api.VANILLA and rng.random() < 0.35:
            n = int(gen.pick(rng, 2, 3, 7, 12))
            q = str(gen.pick(rng, *[k for k in ("S", "FT", "K", "r") if k in c["P"]]))
            c["P"][q] = float(c["P"][q]) * (1 + 0.01 * np.arange(n))
    elif kind == "plot":
        c["cls"] = gen.pick(rng, *api.TREES)
        c["P"] = api.sample(c["cls"], rng, n_max=6, wide_share=0.3)
        kw = {"dx": 0.1, "dy": 0.3, "size": int(gen.pick(rng, 6, 12, 20)), "digits": int(gen.pick(rng, 1, 2, 5)), "figsize": [6, 4], "dpi": 80, "facecolor": "0.9"}
        c["kw"] = {k: v for k, v in kw.items() if rng.random() < 0.4}
    elif kind == "mc":
        c["P"], _ = gen.market(rng, smin=1, smax=500, tmin=0.05, tmax=2.0, vmin=0.05, vmax=0.8, rmin=0.0, maxdev=1.5)
        c.update(loops=int(rng.integers(1, 4)), length=int(rng.integers(1, 6)), paths=int(gen.pick(rng, 4, 8, 16)), fault=int(rng.integers(0, 4)))
    elif kind == "hn":
        c["P"] = dict(c17.market(rng, tmax=60, quick=True), t=int(rng.integers(1, 12)))
    else:
        c["Q"] = c19.params(rng)
        c.update(n=int(rng.integers(20, 80)), n_start=int(gen.pick(rng, 0, 0, 5)), given=bool(rng.random() < 0.4))
    return c


def stir(k):
    """another world: nothing in it is an argument of a query"""
    np.random.seed(k % 2**31)
    random.seed(k)
    np.seterr(all="ignore" if k % 2 else "warn")


def observe(m, what, query, cwd, printed=False, opens=0, draws=False, fails=False):
    """-> outcome of one request, with everything around it compared"""
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings(record=True):
        warnings.simplefilter("always")
        a = world(cwd)
        r = m.call(what, query)
        b = world(cwd)
    m.saw("ops")
    if not r.ok:
        m.saw("refused")
    for k in a:
        x, y = a[k], b[k]
        if k == "the number of open figures":
            m.check(y <= x + opens, "world changed", lambda: f"{what} left {y} figures open where {x} were", mech=f"world:{k}")
            continue
        if k == "the figures open before":
            m.check(all(y.get(n) == v for n, v in x.items()), "world changed", lambda: f"{what} closed or drew on figures of others: {x} became {y}", mech="world:figures")
            continue
        if draws and k == "numpy's random state":
            continue
        same = x == y if k != "the streams" else all(p is q for p, q in zip(x, y))
        m.check(same, "world changed", lambda k=k, x=x, y=y: f"{what} changed {k}" + ("" if len(repr(x)) > 2000 else f" from {x!r} to {y!r}"), mech=f"world:{k}")
    text = out.getvalue()
    if printed and r.ok:
        m.saw("printed")
        m.check(text.strip() != "", "nothing printed", lambda: f"{what} was asked to print and did not")
    else:
        m.check(text == "", "output", lambda: f"{what} printed {text[:200]!r}")
    m.check(err.getvalue() == "", "output", lambda: f"{what} wrote {err.getvalue()[:200]!r} to the error stream")
    if fails:
        m.check(not r.ok, "not refused", lambda: f"{what} should have failed and returned {r.value!r}")
    return r


def twice(m, what, query, c, cwd, **k):
    """the same answer in two worlds"""
    stir(c["world"])
    a = observe(m, what, query, cwd, **k)
    stir(c["world"] + 1)
    b = observe(m, what, query, cwd, **k)
    m.saw("repeated in another world")
    ok = a.ok == b.ok and (not a.ok and type(a.exc) is type(b.exc) or a.ok and (k.get("opens") or c07.same(a.value, b.value)))
    m.check(ok, "depends on the world", lambda: f"{what}: {a.value!r} {a.exc or ''}, with other random and error states {b.value!r} {b.exc or ''}")
    if a.ok:
        m.trivial = False
    return a


def run(c, m):
    from matplotlib import pyplot as plt

    m.trivial = True
    keep = np.random.get_state(), random.getstate(), np.geterr(), os.getcwd()
    plt.close("all")
    plt.figure()  # the first figure settles the backend
    plt.close("all")
    with tempfile.TemporaryDirectory(prefix="c23-") as cwd:
        os.chdir(cwd)
        try:
            {"option": option, "plot": plot, "mc": mc, "hn": hn, "sim": sim, "fit": fit}[c["kind"]](c, m, np.random.default_rng(c["rs"]), cwd)
        finally:
            os.chdir(keep[3])
            np.random.set_state(keep[0])
            random.setstate(keep[1])
            np.seterr(**keep[2])
            plt.close("all")


def option(c, m, rng, cwd):
    name, P = c["cls"], c["P"]
    C = api.cls(name)
    made = observe(m, f"{name}.__init__", lambda: C(**P), cwd)
    if not made.ok:
        m.violate("raised", f"{name}{P} raised {made.exc!r}")
        return
    o = made.value
    m.saw("class:" + name)
    side = name == "RollGeskeWhaleyOption" or bool(rng.random() < 0.5)
    ops = [(q, c07.ask(name, o, q, side), {}) for q in (*api.sides(name), *c07.queries(name))]
    if hasattr(C, "greeks"):
        ops.append(("greeks", o.greeks, {}))
    ops += [("summary", lambda: o.summary(printer=False), {}), ("summary", lambda: o.summary(), {"printed": True}), ("__repr__", lambda: repr(o), {}), ("__str__", lambda: str(o), {}),
            ("get_params", o.get_params, {})]
    if name in ("GBSOption", "BlackScholesOption", "Black76Option"):
        ops += [(q, (lambda q=q: getattr(o, q)(method="fdm")), {}) for q in ("delta", "gamma", "vega", "theta", "rho")]
    price = None
    if hasattr(C, "volatility"):
        price = observe(m, f"{name}.call", o.call, cwd)
        if price.ok:
            p = api.price_of(name, price.value)
            m.saw("implied volatilities")
            if np.size(p) > 1:
                m.saw("arrays")
            ops.append(("volatility", lambda: o.volatility(p), {}))
            if rng.random() < 0.3:
                ops.append(("volatility", lambda: o.volatility(-10.0 * np.abs(p) - 1), {}))  # no volatility gives this
    # requests that are refused
    if name in api.AMERICAN:
        ops.append(("__init__", lambda: C(**dict(P, S=np.array([90.0, 100.0]))), {"fails": True}))
    # twice() changes nothing itself, so a set to the same value may be repeated
    k = str(rng.choice([q for q in P if P[q] is not None]))
    ops += [("set_param", lambda: o.set_param(k, P[k]), {}), ("set_param", lambda: o.set_param("no such parameter", 1.0), {"fails": True})]
    if name not in api.SPREADS and name != "MiltersenSchwartzOption" and "sigma" in P:
        bare = {q: v for q, v in P.items() if q not in ("sigma", "type", "n")}
        ops.append(("call", lambda: C(**bare).call(), {"fails": True}))
    for j in rng.permutation(len(ops))[: 8]:
        what, q, k_ = ops[int(j)]
        if what == "copy":
            continue
        twice(m, f"{name}.{what}", q, c, cwd, **k_)
        m.stratum(name, what)
    d = m.get(f"{name}.get_params", o.get_params)
    if d is not None:
        m.check(all(api._same(d.get(q), P[q]) for q in P), "parameters", lambda: f"parameters are {d!r} after queries, were {P!r}")


def plot(c, m, rng, cwd):
    name = c["cls"]
    o = m.get(f"{name}.__init__", lambda: api.cls(name)(**c["P"]))
    if o is None:
        return
    m.saw("plots")
    if rng.random() < 0.5:  # the user's own figure
        from matplotlib import pyplot as plt

        m.saw("beside another figure")
        plt.figure()
        plt.plot([0, 1], [1, 0])
        plt.title("mine")
    for call in (True, False):
        r = twice(m, f"{name}.plot", lambda: o.plot(call=call, **c["kw"]), c, cwd, opens=1)
        m.check(r.ok, "raised", lambda: f"{name}.plot raised {r.exc!r}")
        twice(m, f"{name}.call", lambda: o.call(tree=True), c, cwd)


class Broken(Exception):
    """injected"""


def mc(c, m, rng, cwd):
    import finoptions as fo

    M = fo.monte_carlo_options
    P = c["P"]
    left = [c["fault"]]

    class Payoff(M.ArithmeticAsianPayoff):
        def call(self):
            left[0] -= 1
            if left[0] == 0:
                raise Broken
            return super().call()

    m.saw("monte carlo")
    a = [c["loops"], c["length"], c["paths"], *[P[k] for k in ("S", "K", "t", "r", "b", "sigma")], M.NormalSobolInnovations, M.WienerPath]
    stir(c["world"])
    for payoff, side, trace in ((M.PlainVanillaPayoff, "put", False), (Payoff, "call", False), (M.ArithmeticAsianPayoff, "call", True)):
        o = observe(m, "MonteCarloOption.__init__", lambda: M.MonteCarloOption(*a, payoff, trace=trace, antithetic=bool(rng.random() < 0.5)), cwd)
        if not o.ok:
            m.violate("raised", f"MonteCarloOption raised {o.exc!r}")
            return
        r = observe(m, f"MonteCarloOption.{side}", getattr(o.value, side), cwd, printed=trace)
        m.stratum("mc", payoff.__name__, side, trace, r.ok)
        if r.ok:
            m.trivial = False
        elif isinstance(r.exc, Broken):
            m.saw("failed plug-in")
        else:
            m.violate("raised", f"MonteCarloOption.{side} raised {r.exc!r}")


def hn(c, m, rng, cwd):
    o = m.get("HestonNandiOption.__init__", lambda: c17.make(m, c["P"], rng))
    if o is None:
        return
    m.saw("heston-nandi prices")
    for q in rng.permutation(["call", "put", "delta", "gamma"])[:2]:
        q = str(q)
        r = twice(m, f"HestonNandiOption.{q}", getattr(o, q), c, cwd)
        m.stratum("hn", q)
        m.check(r.ok, "raised", lambda: f"HestonNandiOption.{q} raised {r.exc!r}")


def sim(c, m, rng, cwd):
    import finoptions as fo

    f = fo.heston_nandi_options.hngarch_sim
    Q = c["Q"]
    m.saw("simulations")
    if c["given"]:
        m.saw("given innovations")
        z, z0 = rng.standard_normal(c["n"]), rng.standard_normal(c["n_start"])
        kw = dict(inno=z, **({"inno_start": z0} if c["n_start"] else {}))
        r = twice(m, "hngarch_sim", lambda: f(**Q, **kw), c, cwd)
        m.check(r.ok, "raised", lambda: f"hngarch_sim raised {r.exc!r}")
        return
    got = []
    for seed in (c["world"], c["world"], c["world"] + 1):
        np.random.seed(seed % 2**31)
        r = observe(m, "hngarch_sim", lambda: f(n=c["n"], n_start=c["n_start"], **Q), cwd, draws=True)
        if not m.check(r.ok, "raised", lambda: f"hngarch_sim raised {r.exc!r}"):
            return
        got.append((np.array(r.value), np.random.get_state()[1:3]))
    m.saw("seeded simulations")
    m.trivial = False
    m.stratum("sim", c["n_start"])
    m.check(np.array_equal(got[0][0], got[1][0]), "seed", lambda: f"two simulations after np.random.seed({c['world']}) differ")
    m.check(not np.array_equal(got[0][0], got[2][0]), "seed", lambda: "simulations after different seeds are the same")
    # the stream goes on from where the seed put it
    m.check(got[0][1][1] == got[1][1][1] and np.array_equal(got[0][1][0], got[1][1][0]), "seed", lambda: "two simulations after the same seed leave different random states")
    m.check(not np.array_equal(got[0][1][0], got[2][1][0]), "seed", lambda: "simulations after different seeds leave the same random state: what is drawn later repeats")
    stir(c["world"])
    row = []
    for _ in range(4):
        r = observe(m, "hngarch_sim", lambda: f(n=c["n"], n_start=c["n_start"], **Q), cwd, draws=True)
        m.check(r.ok and not any(np.array_equal(r.value, x) for x in row), "seed", lambda: "simulations in a row are the same")
        row.append(r.value)


def fit(c, m, rng, cwd):
    import finoptions as fo

    x, _ = c19.series(c["Q"], rng.standard_normal(c["n"]))
    m.saw("fits")
    start = {k: c["Q"][k] for k in ("lamb", "omega", "alpha", "beta", "gamma")}
    sym = bool(rng.random() < 0.5)
    for trace in (False, True) if rng.random() < 0.3 else (False,):
        r = []
        for k in (0, 1):
            stir(c["world"] + k)
            r.append(observe(m, "hngarch_fit", lambda: fo.heston_nandi_options.hngarch_fit(x, rf=c["Q"]["rf"], symmetric=sym, trace=trace, options={"maxiter": 12}, **start), cwd, printed=trace))
        m.stratum("fit", sym, trace)
        if m.check(r[0].ok and r[1].ok, "raised", lambda: f"hngarch_fit raised {r[0].exc!r} {r[1].exc!r}"):
            m.trivial = False
            m.saw("repeated in another world")
            a, b = (np.array([float(v.value["model"][k]) for k in start]) for v in r)
            m.check(np.array_equal(a, b), "depends on the world", lambda: f"hngarch_fit gives {a} and, with another random state, {b}")
