"""Reports: summary(), str() and repr()."""
import contextlib
import io
import re

import numpy as np

from vf import api, gen

ID = "C20"
CPU = 30
CHUNK = 25
COUNTS = {"quick": 6000, "thorough": 60000}
REQUIRED = {f"class:{c}": 60 for c in api.CLASSES}
REQUIRED.update({"reports": 3000, "printed": 800, "repr": 2500, "after a change": 1200, "array reports": 200, "shortened arrays": 80, "without volatility": 150, "optimality shown": 60, "triggers shown": 60, "numbers traced": 20000})
RULE = "one case = one option reported up to three times, with parameter changes between; every number printed is traced back. Non-trivial: a report with prices."
ASSUMPTIONS = ["numpy's default print options"]
TITLE = {
    "GBSOption": r"black.?scholes", "BlackScholesOption": r"black.?scholes", "Black76Option": r"black.{0,3}(19)?76", "MiltersenSchwartzOption": r"miltersen.{1,3}schwartz",
    "RollGeskeWhaleyOption": r"roll.*geske.*whaley", "BAWAmericanApproxOption": r"barone.*adesi.*whaley", "BSAmericanApproxOption": r"bjerksund.*stensland",
    "CRRBinomialTreeOption": r"CRR|cox.*ross", "JRBinomialTreeOption": r"JR|jarrow.*rudd", "TIANBinomialTreeOption": r"TIAN", "TrinomialTreeOption": r"trinomial",
    "BionomialSpreadAllTypes": r"rubinstein|spread", "BionomialMaxOption": r"max", "BionomialMinOption": r"min", "BionomialSpreadOption": r"spread", "SpreadApproxOption": r"spread.*approx",
}
NOT_TITLE = {"Black76Option": r"scholes", "BionomialSpreadOption": r"max|minimum", "BionomialMaxOption": r"minimum", "BionomialMinOption": r"max",
             "CRRBinomialTreeOption": r"\bJR\b|tian|trinomial", "JRBinomialTreeOption": r"CRR|tian|trinomial", "TIANBinomialTreeOption": r"CRR|\bJR\b|trinomial", "TrinomialTreeOption": r"CRR|\bJR\b|tian"}
NUM = r"[-+]?(?:nan|inf|\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+)"


def case(rng, i, tier):
    name = list(api.CLASSES)[i % 16]
    c = {"name": name, "P": api.sample(name, rng, n_max=8, spread_n=4, wide_share=0.35), "rs": gen.sub(rng), "changes": int(rng.integers(0, 3))}
    if name in ("GBSOption", "BlackScholesOption", "Black76Option"):
        u = rng.random()
        if u < 0.4:
            c["nosigma"] = True
        if rng.random() < 0.5:
            n = int(gen.pick(rng, 1, 2, 3, 6, 7, 12, 40))
            for k in rng.permutation([q for q in c["P"] if q != "b"])[: int(rng.integers(1, 3))]:
                v = float(c["P"][k])
                c["P"][str(k)] = np.round(v * rng.uniform(0.7, 1.3, n), int(rng.integers(2, 6))) if k not in ("r",) else np.round(rng.uniform(0.01, 0.1, n), 4)
    return c


def run(c, m):
    name, P = c["name"], dict(c["P"])
    rng = np.random.default_rng(c["rs"])
    m.saw("class:" + name)
    if c.get("nosigma"):
        m.saw("without volatility")
        Q = {k: v for k, v in P.items() if k != "sigma"}
        o = m.get(f"{name}.__init__", lambda: api.cls(name)(**Q))
        if o is None:
            return
        report(m, name, o, dict(Q, sigma=None), rng)
        if m.call(f"{name}.set_param", o.set_param, "sigma", P["sigma"]).ok:
            report(m, name, o, P, rng)
            m.call(f"{name}.set_param", o.set_param, "sigma", None)
            report(m, name, o, dict(P, sigma=None), rng)
        return
    arrays = any(isinstance(v, np.ndarray) for v in P.values())
    o = api.build(m, name, P, rng, route="kw" if arrays else None)
    if o is None:
        return
    report(m, name, o, P, rng)
    for _ in range(c["changes"]):
        if m.violations:
            return
        k, v = api.change(name, P, rng)
        if name == "BionomialSpreadAllTypes" and k == "option":
            continue
        P = dict(P, **{k: v})
        if m.get(f"{name}.set_param", lambda: (o.set_param(k, v), True)[1]) is None:
            return
        m.saw("after a change")
        report(m, name, o, P, rng)


def report(m, name, o, P, rng):
    m.saw("reports")
    how = gen.pick(rng, "str", "summary", "print", "printer")
    if how == "str":
        text = m.get(f"{name}.__str__", lambda: str(o))
    elif how == "summary":
        text = m.get(f"{name}.summary", lambda: o.summary(printer=False))
    else:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = m.call(f"{name}.summary", (lambda: o.summary(printer=True)) if how == "printer" else (lambda: print(o) if rng.random() < 0.5 else o.summary()))
        if not r.ok:
            m.violate("raised", f"{name}.summary raised {r.exc!r}", mech="raised")
            return
        m.saw("printed")
        text = buf.getvalue()
        m.check(text.endswith("\n"), "printed", lambda: f"{name}: summary printed {text!r}")
        text = text[:-1]
    if not m.check(isinstance(text, str), "report", lambda: f"{name}: report by {how} is {text!r}"):
        return
    m.stratum(name, how, "arrays" if any(isinstance(v, np.ndarray) for v in P.values()) else "scalars", "no volatility" if P.get("sigma", 1) is None else "")
    parse(m, name, o, P, text)
    shape(m, name, o, P)


def numbers(m, what, text, v, digits=None):
    """the printed form `text` shows value v (abbreviated and rounded if long)"""
    m.saw("numbers traced")
    if isinstance(v, np.ndarray) and v.ndim:
        m.saw("array reports")
        got = [float(x) for x in re.findall(NUM, text)]
        want = v.astype(float).reshape(-1)
        tol = 1e-8 * (1 + np.abs(want))
        if len(want) > 6:
            m.saw("shortened arrays")
            if "..." in text:
                want = np.concatenate((want[:3], want[-3:]))
            digits = 2
        if digits is not None:
            tol = 0.5 * 10.0 ** -digits + 1e-7 * np.abs(want)
        m.check(text.strip().startswith("[") and text.strip().endswith("]"), what, lambda: f"{what}: array printed as {text!r}")
        m.close(what, got, want, tol)
        return
    if v is None or isinstance(v, (str, bool, np.bool_)):
        m.check(text.strip() == str(v), what, lambda: f"{what}: {v!r} printed as {text!r}")
        return
    try:
        got = float(text)
    except ValueError:
        m.violate(what, f"{what}: {v!r} printed as {text!r}")
        return
    v = float(v)
    if digits is None:
        m.check(got == v, what, lambda: f"{what}: {v!r} printed as {text!r}")
    elif not (v != v and got != got):
        m.close(what, got, v, 0.5 * 10.0 ** -digits * (1 + 1e-9) + 1e-15 * abs(v))


def parse(m, name, o, P, text):
    cut = text.split("\nOption Price:\n")
    head = cut[0]
    lines = head.split("\n")
    title = lines[0]
    m.check(title.startswith("Title:") and re.search(TITLE[name], title, re.I) and not re.search(NOT_TITLE.get(name, "^$"), title, re.I), "title", lambda: f"{name} is titled {title!r}")
    fields = dict((k, v.strip()) for k, v in re.findall(r"^  (\w+) = (.*?)(?=^  \w+ = |^\s*Optimal|\Z)", head, re.S | re.M))
    m.check(set(P) <= set(fields) <= set(api.CLASSES[name][1]) | ({"b"} if name == "Black76Option" else set()), "parameter names", lambda: f"{name} with parameters {sorted(P)} reports {sorted(fields)}")
    for k in P:
        if k in fields:
            numbers(m, f"{name} {k}", fields[k], P[k])
    defaults = {"Q1": 1, "Q2": 1, "K2": None, "n": 5, "option": 1, "otype": "european", "type": "european", "sigma": None, "b": 0}
    for k in set(fields) - set(P):
        if k in defaults:
            numbers(m, f"{name} {k}", fields[k], defaults[k])
    if "sigma" in P and P["sigma"] is None:
        m.check(len(cut) == 1, "prices without volatility", lambda: f"{name} without a volatility reports {cut[1:]}")
        return
    if not m.check(len(cut) == 2, "prices missing", lambda: f"{name}: no prices in {text!r}"):
        return
    m.trivial = False
    tail = cut[1]
    style = P.get("type", P.get("otype"))
    for side in api.sides(name):
        price = m.get(f"{name}.{side}", getattr(o, side))
        if price is None:
            return
        label = f"{side}-{style}" if style and name != "SpreadApproxOption" else side
        if name == "BSAmericanApproxOption":
            g = re.search(rf"^\s*{label}: ({NUM}), trigger: ({NUM})\s*$", tail, re.M)
            if m.check(g, "price line", lambda: f"{name}: no {label} in {tail!r}"):
                m.saw("triggers shown")
                numbers(m, f"{name} {side} price", g.group(1), price["OptionPrice"], 6)
                numbers(m, f"{name} {side} trigger", g.group(2), price["TriggerPrice"], 6)
            continue
        g = re.search(rf"^\s*{label}: (\[.*?\]|\S+)\s*$", tail, re.M | re.S)
        if m.check(g, "price line", lambda: f"{name}: no {label} in {tail!r}"):
            arr = isinstance(price, np.ndarray) and price.ndim
            numbers(m, f"{name} {side} price", g.group(1), price, 2 if arr else 6)
    m.check(set(re.findall(r"\b(call|put)\b[-\w]*:", tail)) == set(api.sides(name)), "sides", lambda: f"{name}: prices shown {tail!r}")
    if name == "RollGeskeWhaleyOption":
        g = re.search(r"Optimal to Exercise Call Option: (\w+)", tail)
        m.saw("optimality shown")
        x = P["K"] * (1 - np.exp(-P["r"] * (P["t"] - P["td"])))
        if abs(P["D"] - x) > 1e-9 * P["K"]:
            want = str(bool(P["D"] > x))
            m.check(g and g.group(1) == want, "optimality", lambda: f"{name}: {tail!r}, dividend {P['D']} against interest {x}")


def shape(m, name, o, P):
    m.saw("repr")
    text = m.get(f"{name}.__repr__", lambda: repr(o))
    params = m.get(f"{name}.get_params", o.get_params)
    if text is None or params is None:
        return
    for k in P:
        m.check(k in params and api._same(params[k], P[k]), "get_params", lambda: f"{name}: {k} is {P[k]!r}, reported {params.get(k)!r}")
    g = re.fullmatch(r"(\w+)\((.*)\)", text, re.S)
    if not m.check(g and g.group(1) == name, "repr", lambda: f"{name} represents itself as {text!r}"):
        return
    items = re.findall(r"\[[^\]]*\]|[^,\s\[\]]+", g.group(2))
    if m.check(len(items) == len(params), "repr", lambda: f"{name}: {len(params)} parameters, represented as {text!r}"):
        for (k, v), item in zip(params.items(), items):
            numbers(m, f"repr {name} {k}", item, v)
