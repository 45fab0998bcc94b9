"""Simulator core: derived seeds, value comparison, fork-per-run executor, minimiser,
replay files, evidence."""
import copy
import hashlib
import importlib
import json
import numbers
import os
import random
import select
import signal
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def derive(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:6], "big")


# ------------------------------------------------------------- comparing values
class Unset:
    def __repr__(self):
        return "<unset>"


UNSET = Unset()


class Raised:
    """Outcome 'this operation raised' as a comparable value."""

    def __init__(self, e):
        self.type = type(e).__name__
        self.base = "SimFault" if type(e).__name__.startswith("Simulated") else self.type
        self.msg = str(e)[:200]

    def __repr__(self):
        return "<raised %s: %s>" % (self.type, self.msg)


def is_num(x):
    return isinstance(x, (numbers.Number, np.generic)) and not isinstance(x, (np.str_,))


def freeze(x):
    """Deep, detached, comparable copy of any value lingam hands out."""
    import pandas as pd
    if x is None or isinstance(x, (str, bytes, bool, Unset, Raised)):
        return x
    if is_num(x):
        return x.item() if isinstance(x, np.generic) else x
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, [freeze(v) for v in x.ravel().tolist()])
        return np.array(x, copy=True)
    if isinstance(x, pd.DataFrame):
        return ("df", [str(c) for c in x.columns], [freeze(v) for v in x.index.tolist()],
                [freeze(x.iloc[:, j].to_numpy()) for j in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return ("series", [freeze(v) for v in x.index.tolist()], freeze(x.to_numpy()))
    if isinstance(x, dict):
        return ("dict", [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((freeze(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    return ("obj", type(x).__name__)


def same(a, b, rtol=1e-7, atol=1e-9):
    """Equal up to tight float tolerance; discrete parts exactly equal."""
    if isinstance(a, Raised) or isinstance(b, Raised):
        return isinstance(a, Raised) and isinstance(b, Raised) and a.base == b.base
    if isinstance(a, Unset) or isinstance(b, Unset):
        return isinstance(a, Unset) and isinstance(b, Unset)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        try:
            a_, b_ = np.asarray(a), np.asarray(b)
        except Exception:
            return False
        if a_.shape != b_.shape:
            return False
        if a_.dtype.kind in "OUSMm" or b_.dtype.kind in "OUSMm":
            return bool(np.all(a_.astype(str) == b_.astype(str)))
        if a_.size == 0:
            return True
        return bool(np.allclose(a_.astype(complex), b_.astype(complex), rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) if is_num(a) and is_num(b) else a is b
    if is_num(a) and is_num(b):
        return bool(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def same_dict(a, b):
    """[] of the keys on which two {name: frozen} snapshots differ."""
    return [k for k in sorted(set(a) | set(b)) if not same(a.get(k, UNSET), b.get(k, UNSET))]


def digest(x):
    h = hashlib.sha256()

    def put(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.shape).encode())
            if v.dtype.kind in "fc":
                v = np.round(v.astype(complex), 8) + 0
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (list, tuple)):
            h.update(b"[")
            for w in v:
                put(w)
            h.update(b"]")
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                put(k)
                put(v[k])
        elif isinstance(v, float):
            h.update(("%.8g" % v).encode())
        else:
            h.update(repr(v).encode())
    put(x)
    return h.hexdigest()[:16]


def brief(x, n=300):
    with np.printoptions(precision=5, threshold=40, suppress=True):
        s = repr(x).replace("\n", "")
    return s if len(s) <= n else s[:n] + "..."


def attempt(fn, *a, **k):
    """Run; return the frozen value or Raised."""
    try:
        return freeze(fn(*a, **k))
    except Exception as e:
        return Raised(e)
    except KeyboardInterrupt as e:
        if type(e) is KeyboardInterrupt:
            raise
        return Raised(e)


# ----------------------------------------------------------------- run context
class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class Ctx:
    """What one simulated run records."""

    def __init__(self):
        self.log = []
        self.counts = {}
        self.faults = {}
        self.states = set()
        self.interleavings = set()
        self.steps = 0
        self.nontrivial = False

    def ev(self, *a):
        self.log.append(" ".join(map(str, a)))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    def out(self):
        return {"digest": hashlib.sha256("\n".join(self.log).encode()).hexdigest()[:24],
                "counts": self.counts, "faults": self.faults, "states": sorted(self.states),
                "inter": sorted(self.interleavings), "steps": self.steps,
                "nontrivial": self.nontrivial, "log_tail": self.log[-4:]}


def run_here(mod, case):
    """Execute one case in this process; a JSON-able verdict."""
    ctx = Ctx()
    res = {"status": "ok"}
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    t0 = time.monotonic()
    try:
        mod.run(case, ctx)
    except Violation as v:
        res = {"status": "violation", "class": v.cls, "msg": v.msg}
    except BaseException:
        res = {"status": "error", "msg": traceback.format_exc()[-3000:]}
    res.update(ctx.out())
    res["t"] = time.monotonic() - t0
    return res


def spawn(mod, case):
    """Fork a pristine child for one case: (pid, fd)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            res = run_here(mod, case)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def run_isolated(mod, case, limit=300):
    return run_many(mod, [(0, case)], 1, limit)[0]


def run_many(mod, indexed, jobs, limit=300, wall=None, stop_on_violation=True, on_result=None, known=None):
    """Run cases, each in its own forked child, `jobs` at a time.
    indexed: iterable of (index, case or callable->case).  -> {index: verdict}"""
    it = iter(indexed)
    live = {}
    out = {}
    t0 = time.monotonic()
    stop = False
    exhausted = False
    while True:
        while not stop and not exhausted and len(live) < jobs:
            if wall is not None and time.monotonic() - t0 > wall:
                stop = True
                break
            try:
                i, case = next(it)
            except StopIteration:
                exhausted = True
                break
            if callable(case):
                case = case()
            pid, fd = spawn(mod, case)
            live[fd] = [pid, i, case, b"", time.monotonic()]
        if not live:
            break
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            chunk = os.read(fd, 1 << 16)
            if chunk:
                live[fd][3] += chunk
                continue
            pid, i, case, buf, ts = live.pop(fd)
            os.close(fd)
            _, st = os.waitpid(pid, 0)
            try:
                res = json.loads(buf.decode())
            except ValueError:
                res = {"status": "error", "msg": "child died, wait status %d" % st}
            res["case"] = case
            out[i] = res
            if on_result:
                on_result(i, res)
            if res["status"] == "violation" and stop_on_violation and not (known and known(res)):
                stop = True
        now = time.monotonic()
        for fd in list(live):
            if now - live[fd][4] > limit:
                pid, i, case, buf, ts = live.pop(fd)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                out[i] = {"status": "timeout", "msg": "no verdict in %d s" % limit, "case": case}
                if on_result:
                    on_result(i, out[i])
    return out


def pristine(fn):
    """fn() evaluated in a forked copy of this process as it is now; nothing it does leaks back."""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                v = (True, fn())
            except BaseException:
                v = (False, traceback.format_exc()[-2000:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    ok, v = pickle.loads(buf)
    if not ok:
        raise RuntimeError("reference computation failed: " + v)
    return v


# ------------------------------------------------------------------- minimiser
def minimise(mod, case, cls, seconds=60):
    t0 = time.monotonic()
    tried = 0

    def fails(c):
        nonlocal tried
        tried += 1
        r = run_isolated(mod, c, 120)
        return r["status"] == "violation" and r["class"] == cls

    best = case
    changed = True
    while changed and time.monotonic() - t0 < seconds:
        changed = False
        for key in getattr(mod, "LIST_KEYS", ["ops"]):
            ops = best.get(key)
            if not ops:
                continue
            k = max(1, len(ops) // 2)
            while k >= 1:
                i = 0
                while i < len(ops) and time.monotonic() - t0 < seconds:
                    if len(ops) - k < getattr(mod, "MIN_OPS", {}).get(key, 0):
                        break
                    c = copy.deepcopy(best)
                    c[key] = ops[:i] + ops[i + k:]
                    if fails(c):
                        best, ops, changed = c, c[key], True
                    else:
                        i += k
                k //= 2
        for c in (mod.shrink(copy.deepcopy(best)) if hasattr(mod, "shrink") else []):
            if time.monotonic() - t0 > seconds:
                break
            if c != best and fails(c):
                best, changed = c, True
                break
    return best, tried


def gen_case(mod, seed, index, tier):
    rng = random.Random(derive("case", mod.ID, seed, index))
    c = mod.gen(rng, index, tier)
    c["_index"] = index
    return c


# ------------------------------------------------------------------------ main
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def known_hits(known, r):
    return [k for k in known if k["class"] == r["class"] and all(s in r["msg"] for s in k["match"])]


def main_check(pid, argv):
    mod = importlib.import_module("sim.checks." + pid.lower())
    if "--replay" in argv:
        f = argv[argv.index("--replay") + 1]
        rec = json.load(open(f))
        r = run_isolated(mod, rec["case"], 600)
        print(json.dumps({k: r.get(k) for k in ("status", "class", "msg", "digest")}, indent=1))
        if r["status"] == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, f))
            return 1
        return 0 if r["status"] == "ok" else 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if "--thorough" in argv else tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    n = mod.RUNS[tier]
    wall = {"quick": 330, "thorough": 5400}[tier]
    if "--runs" in argv:
        n = int(argv[argv.index("--runs") + 1])
    start = int(argv[argv.index("--start") + 1]) if "--start" in argv else 0
    print("property %s tier %s VERIF_SEED=%d runs<=%d jobs=%d" % (pid, tier, seed, n, jobs))
    known = [k for k in load_known() if k.get("property") == pid]
    t0 = time.monotonic()
    agg = {"digest": set(), "faults": {}, "counts": {}, "states": set(), "inter": set(), "steps": 0,
           "nontrivial": 0, "samples": []}

    def on_result(i, r):
        if r["status"] in ("error", "timeout"):
            print("HARNESS-%s run=%d %s" % (r["status"].upper(), i, r["msg"]), file=sys.stderr)
            return
        if r["status"] == "violation" and "--all" in argv:
            print("violating run=%d [%s] %s" % (i, r["class"], r["msg"][:400]))
        fresh = r["digest"] not in agg["digest"]
        agg["digest"].add(r["digest"])
        if r["nontrivial"] and fresh:
            agg["nontrivial"] += 1
        for k in ("faults", "counts"):
            for a, b in r[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["states"].update(r["states"])
        agg["inter"].update(r["inter"])
        agg["steps"] += r["steps"]
        if len(agg["samples"]) < 3:
            agg["samples"].append({"seed": seed, "run": i, "case": r["case"], "log_tail": r["log_tail"],
                                   "digest": r["digest"]})

    res = run_many(mod, ((i, (lambda i=i: gen_case(mod, seed, i, tier))) for i in range(start, start + n)), jobs,
                   limit=240, wall=wall, stop_on_violation="--all" not in argv, on_result=on_result,
                   known=lambda r: bool(known_hits(known, r)))
    if "--digests" in argv:
        for i in sorted(res):
            print("D", i, res[i].get("digest"), res[i]["status"])
    if "--times" in argv:
        ts = sorted(((r.get("t", 0), i) for i, r in res.items()), reverse=True)
        print("slowest", ts[:8], "mean", sum(t for t, _ in ts) / max(1, len(ts)))
        for t, i in ts[:3]:
            print("  slow case", json.dumps(res[i]["case"])[:400])
    bad = sorted(i for i in res if res[i]["status"] == "violation")
    errs = sorted(i for i in res if res[i]["status"] in ("error", "timeout"))
    wall_s = time.monotonic() - t0
    rc = 0
    nviol = 0
    if bad:
        reported = set()
        for i in bad:
            r = res[i]
            hit = known_hits(known, r)
            if hit:
                for k in hit:
                    if k["id"] not in reported:
                        reported.add(k["id"])
                        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
                continue
            if rc == 0:
                case, tried = minimise(mod, r["case"], r["class"], 60 if tier == "quick" else 300)
                rr = run_isolated(mod, case)
                d = os.path.join(VERIF, "evidence", "replays")
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, "%s-seed%d-run%d.json" % (pid, seed, i))
                json.dump({"property": pid, "seed": seed, "run": i, "class": r["class"], "msg": rr.get("msg", r["msg"]),
                           "case": case, "digest": rr.get("digest"), "original_case": r["case"],
                           "minimiser_runs": tried,
                           "replay_cmd": "python3 check.py %s --replay %s" % (pid, path)},
                          open(path, "w"), indent=1)
                print("violation class: %s\n  %s" % (r["class"], rr.get("msg", r["msg"])))
                print("minimised case: %s" % json.dumps(case))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                rc = 1
            nviol += 1
    if rc == 0 and errs:
        rc = 2
    hours = max(wall_s, 1e-9) / 3600
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall_s, 2),
          "violations": nviol,
          "assumptions": mod.ASSUMPTIONS,
          "coverage": {"evaluations": len(res), "distinct_nontrivial": agg["nontrivial"], "rule": mod.RULE,
                       "samples": agg["samples"],
                       "simulated_runs_per_hour": int(len(res) / hours),
                       "seeds_per_hour": int(len(res) / hours),
                       "distinct_event_logs": len(agg["digest"]),
                       "simulated_time_steps": agg["steps"],
                       "simulated_time_unit": "line/call events of lingam code observed or scheduled by the simulator",
                       "faults_injected_and_fired": agg["faults"],
                       "probes": agg["counts"],
                       "distinct_interleavings": len(agg["inter"]),
                       "interleaving_measure": "sha256 of the sequence (event number, thread switched to) of a run, runs with >=1 switch",
                       "distinct_states": len(agg["states"]),
                       "state_measure": mod.STATE_MEASURE,
                       "components_real": mod.REAL, "components_stub": mod.STUB,
                       "harness_errors": len(errs)}}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d runs, %d distinct nontrivial, faults %s, %d interleavings, %d states, %.1f s, exit %d" % (
        pid, len(res), agg["nontrivial"], agg["faults"], len(agg["inter"]), len(agg["states"]), wall_s, rc))
    if "-v" in argv:
        print("probes", json.dumps(agg["counts"], indent=1, sort_keys=True))
    return rc


def nothing(_):
    return None
