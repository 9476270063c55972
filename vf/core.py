"""Execution, monitoring and verdict machinery shared by all checks.

A property module supplies
    ID, REQUIRED, COUNTS, case(rng, i, tier) -> dict (JSON data), run(case, mon)
`case` only draws data; `run` drives the real finoptions code through a Monitor
and lets oracles judge the recorded events.  The core spreads cases over worker
processes, watches for non-termination, separates known findings from
violations, writes replay files and the evidence file, and turns everything
into one verdict: held (0), violated (1) or inconclusive (2).
"""
import collections
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# --------------------------------------------------------------------------
# environment of the code under test
# --------------------------------------------------------------------------
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
_scratch = None


def setup():
    """import finoptions from /repo's working tree; nothing is written there"""
    global _scratch
    sys.dont_write_bytecode = True
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vf-")
        import atexit
        import shutil

        pid = os.getpid()
        atexit.register(
            lambda: shutil.rmtree(_scratch, ignore_errors=True) if os.getpid() == pid else None
        )
    os.environ["MPLCONFIGDIR"] = _scratch
    src = os.path.join(REPO, "src")
    sys.path[:] = [p for p in sys.path if p not in (src,)]
    sys.path.insert(0, src)
    import numpy as np

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    import finoptions

    got = os.path.dirname(os.path.abspath(finoptions.__file__))
    want = os.path.join(os.path.abspath(src), "finoptions")
    if got != want:
        raise RuntimeError(f"finoptions imported from {got}, expected {want}")
    return finoptions


# --------------------------------------------------------------------------
# JSON data <-> numpy
# --------------------------------------------------------------------------
def to_json(x):
    import numpy as np

    if isinstance(x, dict):
        return {k: to_json(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return {"__arr__": [to_json(v) for v in x.reshape(-1).tolist()], "shape": list(x.shape), "dtype": str(x.dtype)}
    if isinstance(x, (list, tuple)):
        return [to_json(v) for v in x]
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        x = float(x)
    if isinstance(x, float) and not math.isfinite(x):
        return {"__f__": repr(x)}
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return _name(x)


def from_json(x):
    import numpy as np

    if isinstance(x, dict):
        if "__arr__" in x:
            vals = [from_json(v) for v in x["__arr__"]]
            return np.array(vals, dtype=x["dtype"]).reshape(x["shape"])
        if "__f__" in x:
            return float(x["__f__"])
        return {k: from_json(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_json(v) for v in x]
    return x


# --------------------------------------------------------------------------
# Monitor
# --------------------------------------------------------------------------
class Hang(BaseException):
    """the case used up its CPU allowance"""


class Outcome:
    __slots__ = ("value", "exc", "op")

    def __init__(self, op, value=None, exc=None):
        self.op, self.value, self.exc = op, value, exc

    @property
    def ok(self):
        return self.exc is None


class Monitor:
    """Records the events of one case and collects what the oracles say."""

    MAXLOG = 60

    def __init__(self):
        self.counts = collections.Counter()  # evidence: what was observed
        self.events = 0
        self.log = []
        self.violations = []
        self.evals = 0
        self.strata = set()
        self.ratio = {}  # what -> largest error/tolerance seen
        self.trivial = False  # set by a case whose outcome carries no information

    # -- events ------------------------------------------------------------
    def call(self, op, fn, *a, **k):
        """Run one public operation of the code under test, recording the call
        before and the outcome after it."""
        self.events += 1
        self.counts["event:" + op.split("#")[0]] += 1
        if len(self.log) < self.MAXLOG:
            self.log.append(["call", op, _short(a), _short(k)])
        try:
            out = Outcome(op, fn(*a, **k))
        except Exception as e:  # noqa: BLE001 - the outcome is the observation
            out = Outcome(op, exc=e)
        if len(self.log) < self.MAXLOG:
            self.log.append(["return", op, _short(out.value) if out.ok else f"raised {out.exc!r}"])
        return out

    def get(self, op, fn, *a, **k):
        """as call(), for operations that must succeed; None if they did not"""
        out = self.call(op, fn, *a, **k)
        if not out.ok:
            tb = traceback.extract_tb(out.exc.__traceback__)
            where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "finoptions" in f.filename), "?")
            self.violate("raised", f"{op} raised {out.exc!r} in {where}", mech=f"raised:{type(out.exc).__name__}")
            return None
        if out.value is None:
            self.violate("no-value", f"{op} returned None", mech="no-value")
        return out.value

    # -- verdicts ----------------------------------------------------------
    def saw(self, key, n=1):
        self.counts[key] += n

    def stratum(self, *key):
        self.strata.add("|".join(str(k) for k in key))

    def violate(self, kind, msg, mech=None):
        self.violations.append({"kind": kind, "msg": msg, "mech": mech or kind})

    def check(self, cond, kind, msg, mech=None):
        self.evals += 1
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, mech)
            return False
        return True

    def close(self, what, got, want, tol, mech=None):
        """numeric oracle: |got - want| <= tol elementwise; nan never passes"""
        import numpy as np

        self.evals += 1
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.violate(what, f"{what}: got {got!r}, which is not numeric", mech or what)
            return False
        w = np.asarray(want, dtype=float)
        if g.size == 1 and w.size == 1:
            g, w = g.reshape(()), w.reshape(())
        if g.shape != w.shape:
            self.violate(what, f"{what}: shape {g.shape}, expected {w.shape}", mech or what)
            return False
        t = np.asarray(tol, dtype=float)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            good = err <= t
            q = np.max(np.where(err > 0, err / t, 0.0)) if g.size else 0.0
        if q > self.ratio.get(what, 0.0):
            self.ratio[what] = float(q)
        if np.all(good):
            return True
        i = int(np.argmin(np.where(good, 1, 0).reshape(-1))) if g.size > 1 else 0
        gg, ww = g.reshape(-1)[i], w.reshape(-1)[i]
        tt = float(t.reshape(-1)[i if t.size > 1 else 0])
        at = f" at element {i}" if g.size > 1 else ""
        self.violate(what, f"{what}: observed {gg!r}, expected {ww!r} +- {tt:.3g}{at}", mech or what)
        return False


def _name(x):
    """repr() may be code under test, and may fail"""
    try:
        return repr(x)
    except Exception:  # noqa: BLE001
        return object.__repr__(x)


def _short(x, lim=240):
    try:
        s = json.dumps(to_json(x), default=_name)
    except Exception:  # noqa: BLE001
        s = _name(x)
    return s if len(s) <= lim else s[: lim - 3] + "..."


# --------------------------------------------------------------------------
# workers
# --------------------------------------------------------------------------
_prop = None
_tier = None
_seed = None
_deadline = None


def case_rng(pid, seed, i):
    import numpy as np

    h = int.from_bytes(hashlib.sha256(pid.encode()).digest()[:4], "big")
    return np.random.default_rng([seed, h, i])


def _alarm(*_):
    raise Hang()


def run_case(prop, case, cpu):
    """-> Monitor.  CPU time, not wall clock, bounds the case: it does not grow
    with the load of the machine."""
    mon = Monitor()
    import numpy as np

    old = signal.signal(signal.SIGPROF, _alarm)
    np.random.seed(case.get("np_seed", 12345))
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        prop.run(from_json(case), mon)
    except Hang:
        last = next((e for e in reversed(mon.log) if e[0] == "call"), None)
        mon.violate(
            "nontermination",
            f"the case did not end within {cpu} s of CPU time; last operation begun: {last}",
            mech="nontermination",
        )
    except (MemoryError, OSError, ImportError):
        raise
    except Exception as e:  # noqa: BLE001
        # An exception out of the code under test, or an observed value no oracle can
        # read: it never happens where the property holds, so it is a violation.
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "finoptions" in f.filename), None)
        at = next((f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb) if f.filename.startswith(HERE)), "?")
        mon.violate(
            "malformed",
            f"{e!r} raised in {where}" if where else f"a value was observed that the oracle cannot read ({e!r} at {at})",
            mech="malformed",
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    return mon


def _work(idx):
    import matplotlib

    matplotlib.use("Agg")
    out = {"counts": collections.Counter(), "events": 0, "evals": 0, "strata": set(), "bad": [], "done": 0, "skipped": 0, "error": None, "sample": None, "hash": set(), "ratio": {}}
    hangs = fresh = 0
    known = known_findings(_prop.ID)
    for i in idx:
        if time.time() > _deadline or hangs >= 2 or fresh >= 12:
            out["skipped"] += 1
            continue
        try:
            case = to_json(_prop.case(case_rng(_prop.ID, _seed, i), i, _tier))
        except Exception:  # noqa: BLE001
            out["error"] = f"generator, case {i}:\n" + traceback.format_exc()
            return out
        try:
            mon = run_case(_prop, case, _prop.CPU)
        except Exception:  # noqa: BLE001
            out["error"] = f"oracle, case {i} {_short(case, 2000)}:\n" + traceback.format_exc()
            return out
        out["done"] += 1
        if mon.evals and not mon.trivial:
            key = {k: v for k, v in case.items() if k not in ("rs", "np_seed")}
            out["hash"].add(hashlib.md5(json.dumps(key, sort_keys=True).encode()).digest()[:8])
        out["counts"] += mon.counts
        out["events"] += mon.events
        out["evals"] += mon.evals
        out["strata"] |= mon.strata
        for k, q in mon.ratio.items():
            if q > out["ratio"].get(k, (0.0, 0))[0]:
                out["ratio"][k] = (q, i)
        if mon.violations:
            hangs += any(v["mech"] == "nontermination" for v in mon.violations)
            fresh += any(v["mech"] not in known for v in mon.violations)
            out["bad"].append((i, case, mon.violations[:4], mon.log))
        elif out["sample"] is None and mon.evals:
            out["sample"] = {"case": case, "history": mon.log[:6]}
    return out


# --------------------------------------------------------------------------
# known findings
# --------------------------------------------------------------------------
def known_findings(pid):
    """mech -> description, for this property"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                f = line.split(None, 3)
                if f[1] == f"property={pid}" and f[2].startswith("mech="):
                    out[f[2][5:]] = f[3] if len(f) > 3 else ""
    return out


# --------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------
def main(pid, argv):
    global _prop, _tier, _seed, _deadline
    t0 = time.time()
    _seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    _tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in argv:
        _tier = argv[argv.index("--tier") + 1]
    if _tier not in ("quick", "thorough"):
        _tier = "quick"
    setup()
    _prop = importlib.import_module("props." + pid.lower())
    if "--replay" in argv:
        return replay(argv[argv.index("--replay") + 1])

    n = _prop.COUNTS[_tier]
    if os.environ.get("VERIF_CASES"):
        n = int(os.environ["VERIF_CASES"])
    budget = {"quick": 240, "thorough": 780}[_tier]
    _deadline = t0 + budget
    if os.environ.get("VERIF_SCALE"):
        n = max(1, round(n * float(os.environ["VERIF_SCALE"])))
    procs = int(os.environ.get("VERIF_PROCS") or max(1, min(os.cpu_count() or 1, 8)))
    stop = int(os.environ.get("VERIF_STOP") or 60)  # enough violating cases
    chunk = max(1, min(getattr(_prop, "CHUNK", 200), math.ceil(n / (procs * 4))))
    jobs = [range(k, min(n, k + chunk)) for k in range(0, n, chunk)]

    tot = {"counts": collections.Counter(), "events": 0, "evals": 0, "strata": set(), "done": 0, "skipped": 0, "hash": set()}
    bad, samples, errors, ratio = [], [], [], {}
    known = known_findings(pid)
    ctx = mp.get_context("fork")
    pool = ctx.Pool(procs)
    stalled = False
    try:
        it = pool.imap_unordered(_work, jobs)
        for _ in jobs:
            try:
                r = it.next(timeout=max(30.0, _deadline + 60 - time.time()))
            except mp.TimeoutError:
                stalled = True
                break
            for k in ("counts", "events", "evals", "done", "skipped"):
                tot[k] += r[k]
            tot["strata"] |= r["strata"]
            tot["hash"] |= r["hash"]
            for k, q in r["ratio"].items():
                if q[0] > ratio.get(k, (0.0, 0))[0]:
                    ratio[k] = q
            bad += r["bad"]
            if r["error"]:
                errors.append(r["error"])
            if r["sample"] and len(samples) < 3:
                samples.append(r["sample"])
            nhang = sum(1 for b in bad if any(v["mech"] == "nontermination" for v in b[2]))
            if len(errors) > 2 or len([b for b in bad if any(v['mech'] not in known for v in b[2])]) >= stop or nhang > 3:
                break
    finally:
        pool.terminate()
        pool.join()

    # fixed witnesses of the findings recorded for this property
    known = known_findings(pid)
    reported = {}
    for mech, (case, expect) in getattr(_prop, "PROBES", {}).items():
        mon = run_case(_prop, to_json(case), _prop.CPU)
        tot["counts"] += mon.counts
        tot["events"] += mon.events
        tot["evals"] += mon.evals
        for v in mon.violations:
            if expect in v["msg"]:  # the recorded failure of this very input; anything else stays a violation
                v["mech"] = mech
        if mon.violations:
            bad.append((f"probe-{mech}", to_json(case), mon.violations[:4], mon.log))

    new = []
    for i, case, vs, log in bad:
        rest = [v for v in vs if v["mech"] not in known]
        for v in vs:
            if v["mech"] in known:
                reported.setdefault(v["mech"], (0, v["msg"]))
                reported[v["mech"]] = (reported[v["mech"]][0] + 1, reported[v["mech"]][1])
        if rest:
            new.append((i, case, rest, log))

    edir = os.path.join(HERE, "evidence")
    rdir = os.path.join(edir, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    lines = []
    by_mech = collections.OrderedDict()
    for item in sorted(new, key=lambda b: str(b[0])):
        by_mech.setdefault(item[2][0]["mech"], []).append(item)
    shown = []
    for mech, items in list(by_mech.items())[:6]:
        i, case, vs, log = items[0]
        path = os.path.join(rdir, f"{pid}-{len(shown) + 1}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "seed": _seed, "tier": _tier, "index": str(i), "case": case, "violations": vs, "history": log}, fh, indent=1)
        lines.append(f"VIOLATION property={pid} replay={path}")
        lines.append(f"  {len(items)} case(s) like: {vs[0]['msg']}")
        shown.append({"mech": mech, "cases": len(items), "msg": vs[0]["msg"], "replay": path})

    # inconclusive: a monitor the property depends on was never reached
    missing = []
    scale = 0.0 if os.environ.get("VERIF_SCALE") else 0.6  # room for the luck of the draw
    for key, least in _prop.REQUIRED.items():
        if tot["counts"][key] < least * scale:
            missing.append(f"{key}: {tot['counts'][key]} < {least}")
    status = 0
    if new:
        status = 1
    elif errors or stalled or missing or tot["done"] == 0:
        status = 2

    ev = {
        "property": pid,
        "tier": _tier,
        "seed": _seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["done"],
            "distinct_nontrivial": len(tot["hash"]),
            "rule": _prop.RULE,
            "samples": samples,
        },
        "events_observed": int(tot["events"]),
        "oracle_evaluations": int(tot["evals"]),
        "cases_skipped": tot["skipped"],
        "observed": dict(sorted(tot["counts"].items())),
        "largest_error_over_tolerance": {k: {"ratio": round(q, 5), "case": i} for k, (q, i) in sorted(ratio.items())[:120]},
        "strata_seen": len(tot["strata"]),
        "strata": sorted(tot["strata"])[:80],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "violation_details": shown,
        "known_findings": [{"mech": m, "cases": c, "example": e} for m, (c, e) in reported.items()],
        "inconclusive": missing + (["stalled"] if stalled else []),
        "assumptions": _prop.ASSUMPTIONS,
        "verdict": {0: "held on what was observed", 1: "violated", 2: "inconclusive"}[status],
    }
    tmp = os.path.join(edir, f".{pid}.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=repr)
    os.replace(tmp, os.path.join(edir, f"{pid}.json"))

    for m, (c, e) in reported.items():
        print(f"KNOWN-FINDING: property={pid} mech={m} {known[m]} [seen in {c} case(s)]")
    for ln in lines:
        print(ln)
    for e in errors[:2]:
        print("ERROR in the check:", e, file=sys.stderr)
    if status == 2:
        print(f"INCONCLUSIVE property={pid}: {missing or errors[:1] or 'stalled'}")
    print(
        f"{pid} {_tier} seed={_seed}: {ev['verdict']}; {tot['done']} cases, {tot['events']} events, "
        f"{tot['evals']} oracle evaluations, {len(tot['strata'])} strata, {ev['wall_s']} s"
    )
    return status


def replay(path):
    d = json.load(open(path))
    mon = run_case(_prop, d["case"], _prop.CPU * 3)
    print(json.dumps({"case": d["case"], "history": mon.log, "violations": mon.violations}, indent=1))
    if mon.violations:
        print(f"VIOLATION property={_prop.ID} replay={path}")
        return 1
    return 0
