"""Vanilla options without a volatility."""
import numpy as np

from vf import api, gen

ID = "C21"
CPU = 30
CHUNK = 25
COUNTS = {"quick": 5000, "thorough": 60000}
QUERIES = [(q, s, k) for q in ("delta", "theta", "rho", "lamb") for s in (True, False) for k in ("analytic", "fdm", None)]
QUERIES += [(q, None, k) for q in ("vega", "gamma") for k in ("analytic", "fdm", None)]
QUERIES += [(q, s, None) for q in ("c_of_c", "greeks") for s in (True, False)] + [("call", None, None), ("put", None, None)]
NAMES = ["GBSOption", "BlackScholesOption", "Black76Option"]
REQUIRED = {f"refused:{q}": 60 for q, _, _ in QUERIES}
REQUIRED.update({f"class:{c}": 300 for c in NAMES})
REQUIRED.update({"refused fdm": 300, "answered": 1500, "unset": 800, "set": 800, "copies": 200, "implied volatility": 300, "reports": 300, "arrays": 200, "refused after use": 500})
RULE = "one case = one sequence of 6 to 16 operations on an option whose volatility comes and goes. Non-trivial: at least one query refused."
ASSUMPTIONS = []


def case(rng, i, tier):
    name = NAMES[i % 3]
    P = api.sample(name, rng, wide_share=0.3)
    arr = None
    if rng.random() < 0.25:
        n = int(rng.integers(2, 9))
        arr = str(gen.pick(rng, *[k for k in P if k in ("S", "FT", "K", "t", "r")]))
        P[arr] = np.round(float(P[arr]) * rng.uniform(0.8, 1.25, n), 6)
    return {"name": name, "P": P, "array": arr, "start": bool(rng.random() < 0.5), "steps": int(rng.integers(6, 17)), "rs": gen.sub(rng)}


def ask(o, q):
    name, side, kind = q
    a = [] if side is None else [side]
    k = {} if kind is None else {"method": kind}
    return getattr(o, name)(*a, **k)


def same(x, y):
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and all(same(x[k], y[k]) for k in x)
    with np.errstate(all="ignore"):
        x, y = np.asarray(x, float), np.asarray(y, float)
        return x.shape == y.shape and bool(np.all((x == y) | ((x != x) & (y != y)) | (np.abs(x - y) <= 1e-11 * (1 + np.abs(x)))))


def run(c, m):
    name, full = c["name"], dict(c["P"])
    rng = np.random.default_rng(c["rs"])
    C = api.cls(name)
    P = dict(full)
    if not c["start"]:
        P["sigma"] = None
    how = gen.pick(rng, "kw", "omit")
    Q = {k: v for k, v in P.items() if not (k == "sigma" and v is None and how == "omit")}
    o = m.get(f"{name}.__init__", lambda: C(**Q))
    if o is None:
        return
    m.saw("class:" + name)
    if c["array"]:
        m.saw("arrays")
    used = False
    m.trivial = True
    for _ in range(c["steps"]):
        if m.violations:
            return
        op = str(rng.choice(["unset", "set", "change", "copy", "query", "vol", "report", "params"], p=[0.13, 0.13, 0.06, 0.08, 0.42, 0.08, 0.05, 0.05]))
        if op in ("unset", "set", "change"):
            if op == "unset":
                k, v = "sigma", None
            elif op == "set":
                k, v = "sigma", float(full["sigma"] * rng.uniform(0.7, 1.3))
            else:
                k, v = api.change(name, {a: b for a, b in P.items() if b is not None and a != "sigma" and a != c["array"]}, rng)
            if m.get(f"{name}.set_param", lambda: (o.set_param(k, v), True)[1]) is None:
                return
            m.saw(op)
            P[k] = v
        elif op == "copy":
            o2 = m.get(f"{name}.copy", o.copy)
            if o2 is None:
                return
            m.saw("copies")
            if rng.random() < 0.5:  # the abandoned one gets the opposite state
                o, o2 = o2, o
            m.call(f"{name}.set_param", o2.set_param, "sigma", 0.3 if P["sigma"] is None else None)
        elif op == "query":
            q = QUERIES[int(rng.integers(len(QUERIES)))]
            if q[0] == "rho" and q[2] == "fdm" and name != "Black76Option":
                q = ("rho", q[1], "analytic")  # refused for another reason when b != 0
            out = m.call(f"{name}.{q[0]}", ask, o, q)
            if P["sigma"] is None:
                m.trivial = False
                m.saw("refused:" + q[0])
                if q[2] == "fdm":
                    m.saw("refused fdm")
                if used:
                    m.saw("refused after use")
                m.check(not out.ok and isinstance(out.exc, ValueError), "answered without volatility", lambda: f"{name}.{q} without a volatility " + (f"returned {out.value!r}" if out.ok else f"raised {out.exc!r}"))
                m.stratum(name, q[0], q[1], q[2], "array" if c["array"] else "scalar")
            else:
                used = True
                m.saw("answered")
                fresh = m.call(f"{name}.{q[0]}#fresh", ask, C(**P), q)
                m.check(out.ok and fresh.ok and same(out.value, fresh.value), "differs from a new option", lambda: f"{name}.{q}: {out.value!r} {out.exc!r}, a new option with {P} gives {fresh.value!r} {fresh.exc!r}")
        elif op == "vol":
            side = bool(rng.random() < 0.5)
            T = C(**dict(P, sigma=full["sigma"]))
            price = T.call() if side else T.put()
            v = m.get(f"{name}.volatility", lambda: o.volatility(price, side))
            if v is None:
                return
            m.saw("implied volatility")
            if c["array"]:
                m.check(np.shape(v) == np.shape(P[c["array"]]), "implied volatility", lambda: f"{name}.volatility returned shape {np.shape(v)}")
            else:
                T.set_param("sigma", v)
                back = T.call() if side else T.put()
                m.close("implied volatility reprices", back, price, 2e-7 * (float(np.max(P.get("S", P.get("FT")))) + float(np.max(P["K"]))))
        elif op == "report":
            text = m.get(f"{name}.__str__", lambda: str(o))
            if text is None:
                return
            m.saw("reports")
            m.check(("Option Price" in text) == (P["sigma"] is not None), "report", lambda: f"{name} with volatility {P['sigma']}: report {text!r}")
        now = m.get(f"{name}.get_params", o.get_params)
        if now is None:
            return
        for k, v in P.items():
            m.check(k in now and (now[k] is v or (v is not None and now[k] is not None and api._same(now[k], v))), "parameters", lambda: f"{name} after {op}: {k} should be {v!r}, is {now.get(k)!r}")
