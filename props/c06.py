"""Array parameters against the same code called element by element."""
import numpy as np

from vf import api, gen, refs
from props import c01, c02, c04

ID = "C06"
CPU = 60
CHUNK = 30
COUNTS = {"quick": 1100, "thorough": 40000}
REQUIRED = {"analytic": 300, "fdm": 80, "ms": 80, "rejected 2d": 20, "rejected": 80, "array:b": 80, "mixed zero carry": 30, "array:2d": 25, "array:long": 30, "array:int": 30, "greeks()": 150}
RULE = (
    "one case = one class and a subset of its parameters given as arrays; all prices and greeks are compared with the scalar "
    "results of the same code for every element. Non-trivial: at least two elements have different prices."
)
ASSUMPTIONS = ["the scalar results themselves are judged by C01-C04; here only their agreement"]
SCAL = ["S", "K", "t", "r", "b", "sigma"]


def spread_values(rng, k, v, n, P):
    if k in ("S", "K", "FT"):
        x = v * np.exp(rng.uniform(-0.35, 0.35, n) * P.get("sd", 0.3))
    elif k == "t":
        x = v * rng.uniform(0.5, 1.0, n)
    elif k == "T":
        x = v + rng.uniform(0.0, 1.0, n)
    elif k == "r":
        x = v + rng.uniform(-0.03, 0.05, n)
    elif k == "b":
        x = rng.uniform(-0.1, 0.15, n)
        mode = int(rng.integers(4))
        if mode == 0:
            x[rng.random(n) < 0.5] = 0.0
        elif mode == 1:
            x = np.where(np.arange(n) % 2 == 0, 0.0, 0.05)
        elif mode == 2:
            x[0] = 0.0
    elif k.startswith("rho"):
        x = v * rng.uniform(0.0, 1.0, n)
    elif k == "Pt":
        x = v * rng.uniform(0.8, 1.0, n)
    else:  # volatilities and mean reversion speeds
        x = v * rng.uniform(0.7, 1.4, n)
    return x


def case(rng, i, tier):
    u = rng.random()
    if u < 0.14:
        name = gen.pick(rng, *api.AMERICAN)
        from props import c08

        P = c08.market(rng)[0] if name == "RollGeskeWhaleyOption" else gen.market(rng, tmin=0.1, rmin=0.01)[0]
        keys = [k for k in P if rng.random() < 0.25] or [str(rng.choice(list(P)))]
        n = int(gen.pick(rng, 2, 3, 8))
        for k in keys:
            P[k] = np.full(n, float(P[k])) * (1 + 0.01 * np.arange(n))
        shape = gen.pick(rng, None, None, (1, n), (n, 1), (2, -1), (1, n, 1)) if n % 2 == 0 else None
        if shape:
            P.update({k: P[k].reshape(shape) for k in keys})
        if rng.random() < 0.15:
            P.update({k: P[k].astype(gen.pick(rng, object, np.float32)) for k in keys})
        return {"kind": "reject", "cls": name, "P": P, "rs": gen.sub(rng)}
    n = int(gen.pick(rng, 2, 3, 5, 6, 7, 8, int(rng.integers(2, 51))))
    if u < 0.32:
        while True:
            P, lab, sd = c02.market(rng)
            if sd >= 0.1 and P["t"] >= 0.1 and abs(np.log(P["K"] / P["FT"])) < 2 * sd and P["T"] > P["t"]:
                break
        keys = [k for k in P if rng.random() < 0.2] or [str(rng.choice(list(P)))]
        kind, name = "ms", "MiltersenSchwartzOption"
    else:
        P, lab = gen.market(rng, smin=0.1, smax=1e4, tmin=0.1, tmax=5.0, vmin=0.1, vmax=1.2, rmin=0.0, money=gen.pick(rng, "atf", "near", "atm"), ints=False)
        sd = P["sigma"] * np.sqrt(P["t"])
        if sd < 0.12:
            P["sigma"] = float(0.12 / np.sqrt(P["t"]))
            sd = 0.12
            P["K"] = float(P["S"] * np.exp(P["b"] * P["t"]))
        name = gen.pick(rng, "GBSOption", "GBSOption", "BlackScholesOption", "Black76Option")
        ks = [k for k in SCAL if not (name == "Black76Option" and k == "b")]
        keys = [k for k in ks if rng.random() < 0.35] or [str(rng.choice(ks))]
        if name != "Black76Option" and rng.random() < 0.25 and "b" not in keys:
            keys.append("b")
        if name == "Black76Option":
            P["b"] = 0.0
        kind = "fdm" if rng.random() < 0.3 else "analytic"
    if kind in ("fdm", "ms"):
        n = min(n, 8)
    P0 = dict(P, sd=float(sd))
    if kind != "ms" and rng.random() < 0.1:
        P["S"] = 100.0
        P["K"] = np.round(100 * np.exp(rng.uniform(-0.3, 0.3, n) * sd)).astype(int)
        keys = [k for k in keys if k not in ("K", "S")]
        P0["S"] = P0["K"] = 100.0
        intk = True
    else:
        intk = False
    for k in keys:
        P[k] = spread_values(rng, k, float(P0[k]), n, P0)
    two = bool(kind == "analytic" and n >= 4 and rng.random() < 0.15)
    if two:
        for k in P:
            if isinstance(P[k], np.ndarray):
                P[k] = P[k][: n // 2 * 2].reshape(2, -1)
    return {"kind": kind, "cls": name, "P": P, "lab": lab, "int": intk, "rs": gen.sub(rng)}


def run(c, m):
    rng = np.random.default_rng(c["rs"])
    name, kind = c["cls"], c["kind"]
    P = {k: v for k, v in c["P"].items()}
    if kind == "reject":
        out = m.call(f"{name}.__init__", lambda: api.cls(name)(**P))
        m.saw("rejected")
        arr = [k for k in P if isinstance(P[k], np.ndarray)]
        m.stratum(name, "reject", *sorted({f"{P[k].ndim}-d {P[k].dtype}" for k in arr}))
        if P[arr[0]].ndim > 1:
            m.saw("rejected 2d")
        m.check(isinstance(out.exc, TypeError), "array accepted", lambda: f"{name} with arrays for {arr} gave {out.value!r} / {out.exc!r}, expected a TypeError")
        # and by changing a parameter of a live object
        base = {k: float(np.ravel(v)[0]) for k, v in P.items()}
        o = m.get(f"{name}.__init__", lambda: api.cls(name)(**base))
        if o is not None:
            k = str(rng.choice(arr))
            out = m.call(f"{name}.set_param", o.set_param, k, P[k])
            m.check(isinstance(out.exc, TypeError), "array accepted", lambda: f"{name}.set_param({k!r}, array) gave {out.exc!r}, expected a TypeError")
        return
    ms = name == "MiltersenSchwartzOption"
    if name == "Black76Option":
        Q = {"FT": P["S"], "K": P["K"], "t": P["t"], "r": P["r"], "sigma": P["sigma"]}
    else:
        Q = dict(P)
    arrs = {k: v for k, v in Q.items() if isinstance(v, np.ndarray)}
    shape = np.broadcast_shapes(*(v.shape for v in arrs.values()))
    n = int(np.prod(shape))
    m.saw(kind)
    for k in arrs:
        m.saw("array:" + k)
        m.stratum(name, kind, "array " + k)
    if len(shape) > 1:
        m.saw("array:2d")
    if n > 6:
        m.saw("array:long")
    if c["int"]:
        m.saw("array:int")
    if "b" in arrs and np.any(arrs["b"] == 0) and np.any(arrs["b"] != 0):
        m.saw("mixed zero carry")
    keep = {k: v.copy() for k, v in arrs.items()}
    order = [k for k in api.CLASSES[name][1] if k in Q]
    if rng.random() < 0.3:  # through set_param, one parameter after the other
        scal = {k: (v.reshape(-1)[0].item() if k in arrs else v) for k, v in Q.items()}
        o = m.get(f"{name}.__init__", lambda: api.cls(name)(**scal))
        if o is None:
            return
        for k in rng.permutation(list(arrs)):
            if not m.call(f"{name}.set_param", o.set_param, str(k), Q[str(k)]).ok:
                m.violate("raised", f"set_param({k!r}, array) raised", mech="raised:set_param")
                return
    else:
        o = api.build(m, name, Q, rng, route="kw" if rng.random() < 0.6 else "pos")
    if o is None:
        return
    # element objects
    E = []
    for j in range(n):
        e = {}
        for k in order:
            v = Q[k]
            e[k] = np.broadcast_to(v, shape).reshape(-1)[j].item() if isinstance(v, np.ndarray) else v
        E.append(e)
    objs = []
    for e in E:
        x = m.get(f"{name}.__init__", lambda e=e: api.cls(name)(**e))
        if x is None:
            return
        objs.append(x)

    call = bool(rng.random() < 0.5)
    k = {"method": "fdm"} if kind == "fdm" else {}
    ops = {"call": lambda x: x.call(), "put": lambda x: x.put(), "delta": lambda x: x.delta(call=call, **k), "theta": lambda x: x.theta(call=call, **k), "vega": lambda x: x.vega(**k), "gamma": lambda x: x.gamma(**k), "lambda": lambda x: x.lamb(call=call, **k)}
    if not ms:
        if kind == "analytic":
            ops["CofC"] = lambda x: x.c_of_c(call=call)
            ops["rho"] = lambda x: x.rho(call=call)
        elif np.all(np.asarray(P["b"]) == 0):
            ops["rho"] = lambda x: x.rho(call=call, **k)
    else:
        ops["vega"] = lambda x: x.vega(call=call)
    unit = {}
    for e in E:
        if ms:
            _, u, sc = c04.reference(name, e, call)
        else:
            g = dict(S=e.get("S", e.get("FT")), K=e["K"], t=e["t"], r=e["r"], b=e.get("b", 0.0), sigma=e["sigma"])
            sc = refs.gbs_scale(g["S"], g["K"], g["t"], g["r"], g["b"])
            cf = np.exp((g["b"] - g["r"]) * g["t"])
            u = {"delta": cf, "theta": sc / g["t"], "vega": sc * np.sqrt(g["t"]), "rho": sc * g["t"], "gamma": cf / (g["S"] * g["sigma"] * np.sqrt(g["t"])), "CofC": sc * g["t"]}
        u["call"] = u["put"] = sc
        for q, w in u.items():
            unit.setdefault(q, []).append(np.max(w))
    prices = None
    got = {}
    for op in rng.permutation(list(ops)):
        op = str(op)
        v = m.get(f"{name}.{op}", ops[op], o)
        if v is None:
            return
        want = []
        for x in objs:
            w = m.get(f"{name}.{op}#scalar", ops[op], x)
            if w is None:
                return
            want.append(np.asarray(w, dtype=float))
        got[op] = v
        dep = not (ms and op == "vega")
        if dep:
            full = np.array(want, dtype=float).reshape(shape)
        else:
            full = np.array(want)  # (n, 3)
        if op == "call":
            prices = full
        # a result that does not depend on any array parameter may come out as one number
        vv = np.asarray(v, dtype=float)
        if vv.size == 1 and full.size > 1 and op in ("delta", "gamma", "vega", "theta", "rho", "CofC") and np.ptp(full) <= 1e-9 * np.max(unit[op]):
            vv = np.broadcast_to(vv.reshape(()), full.shape)
        num = kind == "fdm" or ms
        if op == "lambda":
            px = np.array([np.maximum(1e-300, abs(x.call() if call else x.put())) for x in objs])
            sp = np.array([e.get("S", e.get("FT")) for e in E])
            base = np.array(unit["delta"]) * sp / px
            tol = (2e-4 if num else 1e-11) * base.reshape(full.shape) + 1e-9 * np.abs(full)
            tol = np.where(px.reshape(full.shape) > 1e-5 * np.array(unit["call"]).reshape(full.shape), tol, np.inf)
        elif op in ("call", "put"):
            tol = 1e-12 * np.array(unit[op]).reshape(full.shape)
        else:
            u = np.array(unit[op])
            u = u.reshape(full.shape) if dep else u[:, None] * np.ones(3)
            tol = (c04.TOL[op] if num else 1e-11) * u
        m.close(f"array {op}", vv, full, tol)
    m.trivial = prices is None or not np.ptp(prices) > 1e-9 * np.max(unit["call"])
    if not (kind == "fdm"):
        rep = m.get(f"{name}.greeks", o.greeks, call=call)
        if rep is None:
            return
        m.saw("greeks()")
        if m.check(set(rep) == set(got) - {"call", "put"}, "greeks() keys", lambda: f"greeks() reports {sorted(rep)}"):
            for q in rep:
                w = np.asarray(got[q], dtype=float)
                ok = np.isfinite(w)
                m.close(f"array greeks()[{q}]", np.where(ok, rep[q], 0), np.where(ok, w, 0), 1e-9 * np.abs(np.where(ok, w, 0)) + 1e-12 * np.max(unit.get(q, [1])))
    for q, v in keep.items():
        m.check(np.array_equal(v, Q[q]) and v.dtype == Q[q].dtype, "argument changed", lambda q=q: f"the array passed as {q} was modified")
