"""Reported node values of the lattices, and their plots."""
import matplotlib
import numpy as np

from vf import api, gen, refs
from props import c11, c14

ID = "C12"
CPU = 30
CHUNK = 25
COUNTS = {"quick": 4000, "thorough": 40000}
REQUIRED = {f"class:{c}": 150 for c in api.TREES}
REQUIRED.update({"style:european": 300, "style:american": 300, "side:call": 400, "side:put": 400, "plots": 100, "plot:BiTreePlotter": 40, "plot:TriTreePlotter": 15,
                 "annotations": 1000, "two-asset trees": 100, "n=1": 30})
RULE = "one case = one lattice option whose tree matrix is judged node by node; every sixth is also plotted and every annotation judged. Non-trivial: a node value above 1e-8 of spot plus strike."
ASSUMPTIONS = ["plots are drawn on matplotlib's Agg backend; text artists of the returned figure are what a user sees"]


def case(rng, i, tier):
    if i % 8 == 7:
        name, P = c14.draw(rng, 8)
        return {"name": name, "P": P, "rs": gen.sub(rng)}
    while True:
        name, P, lab, _ = c11.draw(rng, 45)
        if P["n"] <= 45:
            break
    c = {"name": name, "P": P, "lab": lab, "rs": gen.sub(rng)}
    if i % 6 == 0:
        P["n"] = int(rng.integers(1, 9)) if rng.random() < 0.85 else int(rng.integers(9, 40))
        if c11.amplification(name, P) > 1e3:
            P["n"] = 1
        c["plot"] = {"digits": int(rng.integers(0, 6)), "kw": gen.pick(rng, {}, {"figsize": [6, 5]}, {"dx": 0.1, "dy": -0.3, "size": 8}, {"dx": -0.2})}
    return c


def assets(name, P, lev):
    """asset price at each node of a level, in the order of the tree matrix"""
    S, n = P["S"], P["n"]
    if name == "TrinomialTreeOption":
        u = refs.trinomial_params(P["t"], P["b"], P["sigma"], n)[1]
        return S * u ** np.arange(lev, -lev - 1, -1.0)
    _, u, d, _ = refs.lattice_params(api.KIND[name], P["t"], P["r"], P["b"], P["sigma"], n)
    k = np.arange(lev + 1.0)
    return S * u ** (lev - k) * d ** k


def run(c, m):
    name, P = c["name"], c["P"]
    rng = np.random.default_rng(c["rs"])
    o = api.build(m, name, P, rng, route=str(rng.choice(["kw", "set", "copy", "used"])))
    if o is None:
        return
    before = o.get_params()
    side = gen.pick(rng, "call", "put")
    price = getattr(o, side)
    if "Spread" in name or name in api.SPREADS:
        m.saw("two-asset trees")
        tree = m.get(f"{name}.{side}#tree", lambda: price(tree=True))
        x = m.get(f"{name}.{side}", price)
        if tree is None or x is None:
            return
        tree = np.asarray(tree, dtype=float)
        if m.check(tree.ndim == 2, "tree", lambda: f"tree=True returned shape {tree.shape}"):
            m.check(tree[0, 0] == x, "root", lambda: f"{name}: root {tree[0, 0]!r} of the tree is not the price {x!r}")
        m.trivial = not x > 1e-8
        return
    n = P["n"]
    m.saw("class:" + name)
    m.saw("style:" + P["type"])
    m.saw("side:" + side)
    if n == 1:
        m.saw("n=1")
    m.stratum(name[:4], P["type"][:2], side, min(n, 12))
    order = rng.random() < 0.5
    x = m.get(f"{name}.{side}", price) if order else None
    tree = m.get(f"{name}.{side}#tree", lambda: price(tree=True))
    if not order:
        x = m.get(f"{name}.{side}", price)
    if tree is None or x is None:
        return
    tri = name == "TrinomialTreeOption"
    shape = (2 * n + 1, n + 1) if tri else (n + 1, n + 1)
    tree = np.asarray(tree, dtype=float)
    if not m.check(tree.shape == shape, "shape", lambda: f"{name}: tree of {n} steps has shape {tree.shape}"):
        return
    root = tree[n, 0] if tri else tree[0, 0]
    m.check(root == x, "root", lambda: f"{name}: root {root!r} of the tree is not the price {x!r}")
    amp = c11.amplification(name, P)
    want = c11.reference(name, P, side == "call")
    inside = np.zeros(shape, dtype=bool)
    dt = P["t"] / n
    top = 0.0
    for j in range(n + 1):
        rows = slice(n - j, n + j + 1) if tri else slice(0, j + 1)
        inside[rows, j] = True
        left = (n - j) * dt
        tol = 1e-11 * amp * (assets(name, P, j) * max(1, np.exp((P["b"] - P["r"]) * left)) + P["K"] * max(1, np.exp(-P["r"] * left)))
        m.saw("nodes", len(want[j]))
        top = max(top, float(np.max(want[j])))
        if not m.close("node values", tree[rows, j], want[j], tol):
            m.violations[-1]["msg"] += f" (level {j} of {n}, {name} {P['type']} {side})"
            break
    m.check(np.all(tree[~inside] == 0), "padding", lambda: f"{name}: entries outside the lattice are not zero: {tree[~inside]}")
    m.trivial = not top > 1e-8 * (P["S"] + P["K"])
    if "plot" in c:
        plot(c, m, o, name, side, tree, n, tri)
    after = o.get_params()
    m.check(before == after, "state", lambda: f"{name}: parameters {before} became {after}")
    y = m.get(f"{name}.{side}", price)
    m.check(y == x, "state", lambda: f"{name}: price {x!r} became {y!r} after the tree was reported")


def plot(c, m, o, name, side, tree, n, tri):
    from matplotlib import pyplot as plt

    kw = dict(c["plot"]["kw"])
    digits = c["plot"]["digits"]
    plt.close("all")
    ask = {"call": side == "call", "digits": digits}
    if c["rs"] % 4 == 0:  # the documented defaults
        digits = 2
        del ask["digits"]
        if side == "call":
            del ask["call"]
    fig = m.get(f"{name}.plot", lambda: o.plot(**ask, **kw))
    if fig is None:
        plt.close("all")
        return
    m.saw("plots")
    m.saw("plot:" + ("TriTreePlotter" if tri else "BiTreePlotter"))
    dx = kw.get("dx", -0.2 if tri else -0.025)
    dy = kw.get("dy", 0.2 if tri else 0.4)
    seen = {}
    if m.check(isinstance(fig, matplotlib.figure.Figure) and len(fig.axes) == 1, "figure", lambda: f"plot() returned {fig!r}"):
        ax = fig.axes[0]
        if "figsize" in kw:
            m.check(np.allclose(fig.get_size_inches(), kw["figsize"]), "figure", lambda: f"figure size {fig.get_size_inches()} instead of {kw['figsize']}")
        for t in ax.texts:
            m.saw("annotations")
            lev, y = t.xy
            node = (int(round(lev)), int(round(y)))
            seen.setdefault(node, set()).add(t.get_text())
            pos = t.get_position()
            m.check(abs(pos[0] - lev - dx) < 1e-9 and abs(pos[1] - y - dy) < 1e-9, "text position", lambda: f"label of node {node} at {pos}, offsets {dx}, {dy}")
            if "size" in kw:
                m.check(t.get_fontsize() == kw["size"], "font", lambda: f"font size {t.get_fontsize()}")
        want = {}
        for j in range(n + 1):
            ys = range(j, -j - 1, -1) if tri else range(j, -j - 1, -2)
            for k, y in enumerate(ys):
                want[(j, y)] = tree[n - j + k, j] if tri else tree[k, j]
        m.check(set(seen) == set(want), "annotated nodes", lambda: f"{name} n={n}: nodes annotated {sorted(seen)}, nodes of the lattice {sorted(want)}")
        for node in set(seen) & set(want):
            for s in seen[node]:
                try:
                    v = float(s)
                except ValueError:
                    m.violate("annotation", f"{name}: node {node} is annotated {s!r}")
                    continue
                # shown to the requested digits: within half a unit of the last place (and float parsing)
                unit = 10.0 ** -digits
                w = want[node]
                m.check(abs(v - w) <= 0.5 * unit * (1 + 1e-9) + 1e-9 * abs(w) and abs(v / unit - round(v / unit)) < 1e-3 + 1e-9 * abs(v / unit),
                        "annotation", lambda: f"{name} n={n}: node {node} is annotated {s}, its value is {w!r} ({digits} digits)")
        m.check(ax.lines and ax.get_xlabel() and ax.get_title(), "drawing", lambda: "the plot has no edges or labels")
    plt.close("all")
