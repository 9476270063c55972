"""Histories of changes, copies and queries against a model of plain values."""
import contextlib
import copy
import io
import warnings

import numpy as np

from vf import api, gen

ID = "C07"
CPU = 60
CHUNK = 30
COUNTS = {"quick": 3200, "thorough": 60000}
REQUIRED = {"op:set": 2000, "op:copy": 800, "op:price": 1500, "op:greek": 400, "op:report": 500, "op:params": 500, "op:badset": 200, "op:poke": 60, "op:scribble": 60, "results kept": 60, "trees": 60, "op:threaded": 1000, "op:again": 4000, "arrays": 200, **{"class:" + k: 60 for k in api.CLASSES}}
RULE = (
    "one case = one history of up to 14 operations on up to three live objects of one class (two made independently, others "
    "copied; or the same few queries over and over, or from several threads, or cut short); after every operation each live object's parameters, and at every query its answer, are compared with a fresh "
    "object made from the model's parameter values. Non-trivial: at least one change and one later price comparison."
)
ASSUMPTIONS = ["a fresh object's answers are judged by the other properties; here histories must not matter"]


def case(rng, i, tier):
    name = list(api.CLASSES)[i % len(api.CLASSES)]
    P = [api.sample(name, rng, wide_share=0.35), api.sample(name, rng, wide_share=0.35)]
    arrays = name in api.VANILLA and rng.random() < 0.4
    if arrays:
        n = int(rng.integers(2, 9))
        for Q in P:
            for k in [k for k in Q if rng.random() < 0.3] or ["K"]:
                Q[k] = Q[k] * (1 + 0.02 * np.arange(n)) if k not in ("t",) and not k.startswith("rho") else Q[k]
    return {"cls": name, "mode": gen.pick(rng, "crash", "threads", "hammer", "hammer") if rng.random() < 0.4 else "history", "P": P, "arrays": bool(arrays), "len": int(rng.integers(4, 15)), "rs": gen.sub(rng)}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return False
    with np.errstate(all="ignore"):
        return bool(np.all((np.abs(x - y) <= 1e-13 * np.abs(y)) | (x == y) | (np.isnan(x) & np.isnan(y))))


def expected_params(name, P):
    d = {k: P[k] for k in api.CLASSES[name][1] if k in P}
    if name == "Black76Option":
        d["b"] = 0
    return d


def clone(P):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in P.items()}


GREEKS = {
    "vanilla": ["delta", "theta", "vega", "rho", "lamb", "gamma", "c_of_c"],
    "rgw": ["delta", "vega", "rho"],
    "other": ["delta", "theta", "vega", "rho", "lamb", "gamma"],
}


def ask(name, o, what, call):
    """-> thunk for one query"""
    if what in ("call", "put"):
        return getattr(o, what)
    if name == "RollGeskeWhaleyOption" or what in ("vega", "gamma"):
        return getattr(o, what)
    return lambda: getattr(o, what)(call=call)


def queries(name):
    g = GREEKS["rgw" if name == "RollGeskeWhaleyOption" else "vanilla" if name in ("GBSOption", "BlackScholesOption", "Black76Option") else "other"]
    C = api.cls(name)
    return [x for x in g if hasattr(C, x) and not (name == "MiltersenSchwartzOption" and x in ("rho", "c_of_c"))]


def TREE(name):
    return name in api.TREES or name in api.SPREADS and name != "SpreadApproxOption"


def scribble(v):
    """overwrite a result"""
    if isinstance(v, dict):
        for k in list(v):
            scribble(v[k])
            v[k] = -1.0
    elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "fi":
        v[...] = -12345.0


class Fault(Exception):
    """injected"""


def faulty(C):
    """C with prices that fail on demand: at the k-th pricing of any instance"""

    class F(C):
        left = None

        def _tick(self):
            if F.left is not None:
                F.left -= 1
                if F.left < 0:
                    raise Fault

        def call(self, *a, **k):
            F._tick(self)
            return super().call(*a, **k)

        if "put" in dir(C):

            def put(self, *a, **k):
                F._tick(self)
                return super().put(*a, **k)

    return F


def crash(c, m, name, rng):
    """a query cut short at any of its pricings leaves no trace"""
    C = api.cls(name)
    F = faulty(C)
    P = c["P"][0]
    o = m.get(f"{name}.__init__", lambda: F(**clone(P)))
    if o is None:
        return
    ops = [(g, (lambda g=g, s=s: ask(name, o, g, s)())) for g in queries(name) for s in ((True,) if name == "RollGeskeWhaleyOption" else (True, False))]
    fdm = name in ("GBSOption", "BlackScholesOption", "Black76Option")
    if fdm:
        ops = [(g + " by differences", (lambda g=g, s=s: getattr(o, g)(method="fdm", **({} if g in ("vega", "gamma") else {"call": s})))) for g in ("delta", "theta", "vega", "lamb", "gamma") for s in (True, False)]
    if hasattr(C, "greeks"):
        ops.append(("greeks", o.greeks))
    if hasattr(C, "volatility"):
        price = m.get(f"{name}.call", o.call)
        if price is None:
            return
        ops.append(("volatility", lambda: o.volatility(price)))
    m.trivial = True
    for _ in range(4):
        what, q = ops[int(rng.integers(len(ops)))]
        F.left = int(rng.choice([0, 1, 2, 3, 5, 8, 13, 20]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            out = m.call(f"{name}.{what}#fault", q)
        hit = F.left is not None and F.left < 0
        F.left = None
        m.saw("op:fault" if hit else "op:fault not reached")
        if hit:
            m.trivial = False
        d = o.get_params()
        want = expected_params(name, P)
        if not m.check(set(d) == set(want) and all(same(d[k], want[k]) for k in want), "parameters", lambda: f"{what} of {name} was cut short and left parameters {d!r}, expected {want!r}"):
            return
        for side in api.sides(name):
            a, b = m.call(f"{name}.{side}", getattr(o, side)), m.call(f"{name}.{side}#fresh", getattr(C(**clone(P)), side))
            if not m.check(a.ok and b.ok and same(a.value, b.value), "history", lambda: f"{side} after {what} was cut short: {a.value!r} {a.exc or ''}, a fresh object gives {b.value!r}", mech="history fault"):
                return
        del out


def threads(c, m, name, rng):
    """several threads asking one option (and a copy) at once get what each alone would"""
    import sys
    import threading

    C = api.cls(name)
    P = c["P"][0]
    o = m.get(f"{name}.__init__", lambda: C(**clone(P)))
    if o is None:
        return
    kinds = list(api.sides(name)) + queries(name)
    plan = [[(str(rng.choice(kinds)), name == "RollGeskeWhaleyOption" or bool(rng.random() < 0.5)) for _ in range(3)] for _ in range(4)]
    alone = {}
    for jobs in plan:
        for w, s in jobs:
            if (w, s) not in alone:
                alone[w, s] = m.call(f"{name}.{w}", ask(name, C(**clone(P)), w, s))
    got = [[None] * 3 for _ in plan]
    gate = threading.Barrier(len(plan))

    def work(t):
        gate.wait()
        for n, (w, s) in enumerate(plan[t]):
            try:
                got[t][n] = (True, ask(name, o, w, s)())
            except Exception as e:  # noqa: BLE001
                got[t][n] = (False, e)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(len(plan))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    m.trivial = False
    for t, jobs in enumerate(plan):
        for n, (w, s) in enumerate(jobs):
            m.saw("op:threaded")
            m.events += 1
            ref, ans = alone[w, s], got[t][n]
            if not m.check(ans is not None and ans[0] == ref.ok and (not ref.ok or same(ans[1], ref.value)), "threads", lambda: f"{name}.{w}(call={s}) asked in one of four threads: {ans!r}; alone: {ref.value!r} {ref.exc or ''}"):
                return
    d = o.get_params()
    want = expected_params(name, P)
    m.check(set(d) == set(want) and all(same(d[k], want[k]) for k in want), "parameters", lambda: f"after queries from four threads {name} reports {d!r}, expected {want!r}")


def everything(name, market_price):
    """every kind of query the class answers: (name, thunk of an object)"""
    C = api.cls(name)
    sides = (True,) if name == "RollGeskeWhaleyOption" else (True, False)
    out = [(f"{g}(call={s})", lambda o, g=g, s=s: ask(name, o, g, s)()) for g in queries(name) for s in sides]
    out += [(s, lambda o, s=s: getattr(o, s)()) for s in api.sides(name)] * 2
    if name in ("GBSOption", "BlackScholesOption", "Black76Option"):
        out += [(g + " by differences", lambda o, g=g, s=s: getattr(o, g)(method="fdm", **({} if g in ("vega", "gamma") else {"call": s}))) for g in ("delta", "theta", "vega", "lamb", "gamma") for s in sides]
    if TREE(name):
        out += [(s + "(tree=True)", lambda o, s=s: getattr(o, s)(tree=True)) for s in api.sides(name)]
    if name == "RollGeskeWhaleyOption":
        out += [("is_call_optimal", lambda o: o.is_call_optimal())] * 2
    if hasattr(C, "greeks"):
        out += [("greeks", lambda o: o.greeks())] + ([] if len(sides) == 1 else [("greeks(call=False)", lambda o: o.greeks(call=False))])
    if hasattr(C, "volatility"):
        out += [("volatility", lambda o: o.volatility(market_price))] * 2
    out += [("summary", lambda o: o.summary(printer=False)), ("str", str), ("repr", repr)]
    return out


def hammer(c, m, name, rng):
    """the same few queries over and over, between two markets set in turn: the first answer and the last are the same"""
    C = api.cls(name)
    A = c["P"][0]
    k, v = api.change(name, A, rng)
    B = {**clone(A), k: v}
    price = m.get(f"{name}.call", C(**clone(A)).call)
    if price is None:
        return
    allq = everything(name, float(np.ravel(api.price_of(name, price))[0]))
    todo = [allq[int(rng.integers(len(allq)))] for _ in range(int(rng.integers(1, 4)))]
    o = m.get(f"{name}.__init__", lambda: C(**clone(A)))
    if o is None:
        return
    now, refs_ = 0, {}
    m.trivial = False
    for step in range(int(rng.integers(10, 30))):
        u = rng.random()
        if u < 0.08:
            now = 1 - now
            x = (A, B)[now][k]
            if not m.call(f"{name}.set_param", o.set_param, k, x.copy() if isinstance(x, np.ndarray) else x).ok:
                m.violate("raised", f"{name}.set_param({k!r}, {x!r}) raised", mech="raised:set_param")
                return
        elif u < 0.11:
            o = m.get(f"{name}.copy", o.copy)
            if o is None:
                return
        n = int(rng.integers(len(todo)))
        what, q = todo[n]
        if (now, n) not in refs_:
            refs_[now, n] = m.call(f"{name}.{what}#fresh", q, C(**clone((A, B)[now])))
        a, b = m.call(f"{name}.{what}", q, o), refs_[now, n]
        m.saw("op:again")
        eq = a.ok == b.ok and (type(a.exc) is type(b.exc) if not a.ok else a.value == b.value if isinstance(b.value, str) else same(a.value, b.value))
        if not m.check(eq, "history", lambda: f"{what} asked again and again (query {step} of one object): {a.value!r} {a.exc or ''}; a fresh object gives {b.value!r} {b.exc or ''}", mech="repeated query"):
            return


def run(c, m):
    rng = np.random.default_rng(c["rs"])
    name = c["cls"]
    C = api.cls(name)
    m.saw("class:" + name)
    if c["mode"] != "history":
        return {"crash": crash, "threads": threads, "hammer": hammer}[c["mode"]](c, m, name, rng)
    if c["arrays"]:
        m.saw("arrays")
    live = []  # [object, model]
    for P in c["P"][: int(rng.integers(1, 3))]:
        P = dict(P)
        held = clone(P)
        o = m.get(f"{name}.__init__", lambda: C(**P))
        if o is None:
            return
        live.append([o, held, P])
    changed = compared = False
    held = []  # results handed out, and what they were

    def fresh(P):
        return C(**clone(P))

    for step in range(c["len"]):
        j = int(rng.integers(len(live)))
        o, P, raw = live[j]
        op = str(rng.choice(["set", "copy", "price", "greek", "report", "params", "badset", "poke"], p=[0.34, 0.12, 0.24, 0.08, 0.08, 0.06, 0.05, 0.03]))
        m.saw("op:" + op)
        m.stratum(name, op)
        if op == "set":
            k, v = api.change(name, P, rng)
            if c["arrays"] and k in ("K", "S", "FT", "r", "sigma", "b") and rng.random() < 0.4:
                n = next((x.size for x in P.values() if isinstance(x, np.ndarray)), 3)
                v = v * (1 + 0.02 * np.arange(n)) if v else np.where(np.arange(n) % 2, 0.03, 0.0)
            vin = v.copy() if isinstance(v, np.ndarray) else v
            if not m.call(f"{name}.set_param", o.set_param, k, vin).ok:
                m.violate("raised", f"{name}.set_param({k!r}, {v!r}) raised", mech="raised:set_param")
                return
            P[k] = v.copy() if isinstance(v, np.ndarray) else v
            raw[k] = vin
            changed = True
        elif op == "copy":
            if len(live) < 3:
                n = m.get(f"{name}.copy", o.copy)
                if n is None:
                    return
                if not m.check(type(n) is type(o) and n is not o, "copy", lambda: f"copy() returned {n!r}"):
                    return
                live.append([n, clone(P), dict(raw)])
                if rng.random() < 0.5:  # the copy takes the place of an older object
                    live[j], live[-1] = live[-1], live[j]
        elif op in ("price", "greek"):
            call = bool(rng.random() < 0.5) and True or name == "RollGeskeWhaleyOption"
            if op == "price":
                what = "call" if call else "put"
            else:
                what = str(rng.choice(queries(name) + (["greeks"] if hasattr(C, "greeks") else [])))
            ref = fresh(P)
            query = ask
            if op == "price" and TREE(name) and rng.random() < 0.4:
                m.saw("trees")

                def query(name, x, what, call):
                    return lambda: getattr(x, what)(tree=True)

            a, b = m.call(f"{name}.{what}", query(name, o, what, call)), m.call(f"{name}.{what}#fresh", query(name, ref, what, call))
            if a.ok != b.ok:
                m.violate("history", f"{what} {'raised ' + repr(a.exc) if not a.ok else 'returned ' + repr(a.value)} after this history, a fresh object {'raised ' + repr(b.exc) if not b.ok else 'returned ' + repr(b.value)}", mech="history " + what)
                return
            if not a.ok:
                if not m.check(type(a.exc) is type(b.exc), "history", lambda: f"{what} raised {a.exc!r} after this history, a fresh object raised {b.exc!r}"):
                    return
                continue
            if not m.check(same(a.value, b.value), "history", lambda: f"{what} (call={call}) after this history: {a.value!r}; fresh object with the same parameters: {b.value!r}", mech="history " + what):
                return
            if rng.random() < 0.3:
                a2 = m.call(f"{name}.{what}", query(name, o, what, call))
                if not m.check(a2.ok and same(a2.value, a.value), "repeat", lambda: f"{what} repeated gave {a2.value!r} after {a.value!r}"):
                    return
            if isinstance(a.value, (np.ndarray, dict)):
                if rng.random() < 0.4:  # the caller's, to do with as it likes
                    m.saw("op:scribble")
                    scribble(a.value)
                else:
                    held.append((what, a.value, copy.deepcopy(a.value)))
            compared = compared or changed
        elif op == "report":
            how = str(rng.choice(["str", "repr", "summary", "print"]))
            ref = fresh(P)

            def text(x):
                if how == "str":
                    return str(x)
                if how == "repr":
                    return repr(x)
                if how == "summary":
                    return x.summary(printer=False)
                buf = io.StringIO()
                with contextlib.redirect_stdout(buf):
                    x.summary()
                return buf.getvalue()

            a, b = m.get(f"{name}.{how}", text, o), m.get(f"{name}.{how}#fresh", text, ref)
            if a is None or b is None:
                return
            if not m.check(a == b, "history report", lambda: f"{how} after this history:\n{a}\nfresh object:\n{b}"):
                return
        elif op == "params":
            d = m.get(f"{name}.get_params", o.get_params)
            if d is None:
                return
            if isinstance(d, dict):  # the caller's copy, to do with as it likes
                for k in list(d):
                    d[k] = -1.0
                d["junk"] = 0
        elif op == "badset":
            # a refused change leaves no trace
            if name in api.AMERICAN and rng.random() < 0.5:
                k = str(rng.choice(list(P)))
                out = m.call(f"{name}.set_param", o.set_param, k, np.array([1.0, 1.1]) * (P[k] or 1.0))
                m.saw("op:badarray")
                if not m.check(isinstance(out.exc, TypeError), "array accepted", lambda: f"set_param({k!r}, array) gave {out.exc!r}, expected a TypeError"):
                    return
            out = m.call(f"{name}.set_param", o.set_param, "nosuchparameter", 1.0)
            if not m.check(not out.ok, "unknown parameter accepted", "set_param of an unknown parameter did not fail"):
                return
        elif op == "poke":
            # write into an array of a copy: the original must not see it
            n = m.get(f"{name}.copy", o.copy)
            if n is None:
                return
            d = n.get_params()
            for k, v in d.items():
                if isinstance(v, np.ndarray):
                    v[...] = 12345.0
            with contextlib.suppress(Exception), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                k, v = api.change(name, P, rng)
                n.set_param(k, v)
                n.call()
        # after every step: all live objects still report the model's values
        for q, (x, Q, _) in enumerate(live):
            d = m.call(f"{name}.get_params", x.get_params)
            want = expected_params(name, Q)
            if not m.check(d.ok and isinstance(d.value, dict) and set(d.value) == set(want) and all(same(d.value[k], want[k]) for k in want), "parameters",
                           lambda: f"after {op} on object {j}, object {q} reports {d.value!r}, expected {want!r}"):
                return
            for k, v in Q.items():
                if isinstance(v, np.ndarray) and not np.array_equal(live[q][2][k], v):
                    m.violate("argument changed", f"after {op}, the array passed in as {k} was modified")
                    return
    for what, v, was in held:
        m.saw("results kept")
        m.check(same(v, was), "result changed", lambda: f"a result of {what} kept by the caller was {was!r} and is now {v!r}")
    # at the end, everything prices as new
    for q, (x, Q, _) in enumerate(live):
        for side in api.sides(name):
            a, b = m.call(f"{name}.{side}", getattr(x, side)), m.call(f"{name}.{side}#fresh", getattr(fresh(Q), side))
            m.check(a.ok and b.ok and same(a.value, b.value), "history", lambda: f"at the end object {q} gives {side} {a.value!r} {a.exc or ''}, a fresh one {b.value!r} {b.exc or ''}", mech="history " + side)
            compared = compared or changed
    m.trivial = not compared
