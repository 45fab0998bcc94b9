"""C08: same seed, same result; seeded and deterministic operations leave the process-global random stream and settings alone."""
import copy
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import warnings

import numpy as np
import pandas as pd
from sklearn.tree import DecisionTreeRegressor

from lingam import CausalBasedSimulator, DirectLiNGAM, ICALiNGAM, VARLiNGAM
from lingam.experimental import CausalDataGenerator, OutOfSampleCausalTuning
from lingam.tools import bootstrap_with_imputation

from .. import scenarios as sc
from .. import seams
from ..core import Raised, VERIF, Violation, attempt, brief, digest, freeze, pristine
from ..models import as_form, sem, var_series
from .c03 import same_deep
from .common import BASE_REAL, gen_fault

ID = "C08"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 50000}
RULE = ("one run = one public operation evaluated in a pristine process under a chosen random-stream position, then in a process that "
        "first executed 0-3 other operations (some failing at an injected call), then (if seeded or deterministic) under another stream "
        "position, and in a share of runs in a new interpreter with another hash seed; results and final stream positions must agree and "
        "process-global settings must be as before each operation; non-trivial: >=2 executions compared; distinct by event-log hash")
STATE_MEASURE = "operation x what preceded it x variation"
REAL = BASE_REAL + ["CPython interpreter start with other hash seeds"]
STUB = ["numpy/stdlib global RNG position", "failing calls", "interpreter hash seed"]
ASSUMPTIONS = ["bootstrap methods of estimators, unseeded ICA, VARMA, LiM, MDLiNA and unseeded shuffling/generation draw from the global "
               "numpy stream by design; they must be reproducible under the same stream position"]
LIST_KEYS = ["hist"]

LOCAL = {}


def local(name, cost=1.0):
    def deco(cls):
        o = cls()
        o.name, o.cost, o.uses_rng = name, cost, False
        LOCAL[name] = o
        return cls
    return deco


@local("Seeded:ICALiNGAM")
class _(sc.Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, s["n"], s["p"]), s["form"])
        k = r.randrange(5)
        return {"X": X}, lambda: [freeze(getattr(ICALiNGAM(random_state=k, max_iter=100).fit(X), a)) for a in ("causal_order_", "adjacency_matrix_")]


@local("Seeded:VARLiNGAM(ICA)")
class _(sc.Fn):
    def make(self, s, rs, r):
        X = as_form(var_series(rs, s["n"], 2), s["form"])
        k = r.randrange(5)
        return {"X": X}, lambda: VARLiNGAM(lingam_model=ICALiNGAM(random_state=k, max_iter=100)).fit(X).adjacency_matrices_


@local("Seeded:CausalBasedSimulator")
class _(sc.Fn):
    def make(self, s, rs, r):
        B = sc.dag(rs, s["p"])
        X = as_form(sem(rs, s["n"], s["p"], B=B), s["form"])
        k = r.randrange(5)
        names = list(X.columns) if hasattr(X, "columns") else [str(i) for i in range(s["p"])]
        mdl = {nm: DecisionTreeRegressor(max_depth=2, random_state=0) for nm in names if r.random() < 0.4} or None
        ex = {nm: rs.randn(s["n"]) for nm in names if r.random() < 0.4} or None

        def go():
            cs = CausalBasedSimulator()
            cs.train(X, B, models=mdl)
            return cs.run(changing_exog=ex, shuffle_residual=True, random_state=k)
        return {"X": X}, go


@local("Seeded:bootstrap_with_imputation", 6)
class _(sc.Fn):
    def make(self, s, rs, r):
        X = sem(rs, 34, 2)
        X[rs.rand(*X.shape) < 0.08] = np.nan
        X[0] = rs.randn(2)
        X = as_form(X, s["form"])
        k, n = r.randrange(5), r.choice([1, 2])
        return {"X": X}, lambda: bootstrap_with_imputation(X, n, n_repeats=2, random_state=k)


@local("Seeded:CausalDataGenerator")
class _(sc.Fn):
    def make(self, s, rs, r):
        X = pd.DataFrame(sem(rs, s["n"], 3), columns=["a", "b", "c"])
        if r.random() < 0.7:
            X["b"] = pd.Categorical((X["b"] > 0).astype(int))
        if r.random() < 0.3:
            X["a"] = pd.Categorical((X["a"] > 0).astype(int))
        k = r.randrange(5)
        endog = {"c": rs.randn(s["n"])} if r.random() < 0.5 else None

        def go():
            g = CausalDataGenerator(random_state=k)
            g.fit(X, "a", "b", adjustments=["c"])
            return [g.generate(interv_endog=endog), g.generate()]
        return {"X": X}, go


@local("Seeded:OutOfSampleCausalTuning", 40)
class _(sc.Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, 30, 2), s["form"])
        k = r.randrange(5)

        def go():
            o = OutOfSampleCausalTuning(cv=2, sparsity_penalty=False, random_state=k)
            o.fit(X, [{"model": DirectLiNGAM, "init_kwargs": {"measure": "pwling"}}, {"all_others": True}])
            return (int(o.best_config_index_), o.scores_)
        return {"X": X}, go


def op(name):
    return LOCAL.get(name) or sc.S[name]


CHEAP_LOCAL = [n for n in LOCAL if LOCAL[n].cost < 20]
CYCLE = sc.CHEAP + CHEAP_LOCAL
QUICKISH = [n for n in CYCLE if op(n).cost <= 2]


def gen(rng, index, tier):
    if index % 60 == 59:
        ops = []
        for k in range(8):
            n = rng.choice(["CausalBasedSimulator", "Seeded:CausalBasedSimulator", "Seeded:CausalDataGenerator"]) if k < 2 else rng.choice(CYCLE)
            ops.append({"op": n, "spec": op(n).gen(rng), "s": rng.randrange(1 << 30)})
        return {"mode": "hash", "hist": ops, "hashseed": rng.randint(1, 4000)}
    name = CYCLE[index % len(CYCLE)]
    if index % 250 == 77:
        name = rng.choice(["Seeded:OutOfSampleCausalTuning"] + sc.SLOW)
    hist = []
    for _ in range(rng.randint(0, 3) if op(name).cost < 20 else 1):
        n = name if rng.random() < 0.3 and op(name).cost <= 2 else rng.choice(QUICKISH)
        hist.append({"op": n, "spec": op(n).gen(rng), "s": rng.randrange(1 << 30), "f": gen_fault(rng) if rng.random() < 0.4 else None})
    return {"mode": "history", "op": name, "spec": op(name).gen(rng), "s": rng.randrange(1 << 30), "hist": hist,
            "warn": rng.random() < 0.3}


def settings():
    out = {"numpy error handling": dict(np.geterr()), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
           "warning filters": repr(warnings.filters), "environment": dict(os.environ), "working directory": os.getcwd(),
           "stdout/stderr": (id(sys.stdout), id(sys.stderr)), "recursion limit": sys.getrecursionlimit(),
           "files in the working directory": sorted(os.listdir(".")),
           "pandas options": tuple(pd.get_option(o) for o in ("mode.chained_assignment", "display.max_rows", "display.precision")),
           "showwarning": id(warnings.showwarning), "threads": threading.active_count()}
    return out


def moved(a, b):
    return [k for k in a if a[k] != b[k]]


def run(case, ctx):
    work = tempfile.mkdtemp(prefix="cwd-", dir=os.environ.get("LINGAM_SIM_SCRATCH", "/tmp"))
    os.chdir(work)
    import matplotlib.figure  # noqa: F401  (imports change settings; get them out of the way)
    if case["mode"] == "hash":
        return run_hash(case, ctx)
    O = op(case["op"])

    def evaluate(s):
        env = O.build(case["spec"])
        seams.set_rng(s)
        v = attempt(env.go)
        return v, seams.rng_token()
    ref, tok = pristine(lambda: evaluate(case["s"]))
    if case.get("warn"):
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        np.seterr(all="warn")
        np.seterr(under="ignore")
    done = []
    for h in case["hist"] + [None]:
        H = O if h is None else op(h["op"])
        name = case["op"] if h is None else h["op"]
        env = H.build(case["spec"] if h is None else h["spec"])
        seams.set_rng(case["s"] if h is None else h["s"])
        before, t0 = settings(), seams.rng_token()
        fired = False
        if h is not None and h["f"]:
            def dryrun():
                e2 = H.build(h["spec"])
                seams.set_rng(h["s"])
                with seams.CallTrace(record=True) as dry:
                    attempt(e2.go)
                return seams.Calls(dry)
            k = seams.pick_call(pristine(dryrun), random.Random(h["f"]["pick"]))
            with seams.CallTrace(fail_at=k, kind=h["f"]["kind"]) as tr:
                v = attempt(env.go)
            fired = tr.fired
            if fired:
                ctx.fault("operation-fails:" + h["f"]["kind"])
        else:
            with seams.CallTrace() as tr:
                v = attempt(env.go)
        ctx.steps += tr.n
        t1, after = seams.rng_token(), settings()
        bad = moved(before, after)
        if bad:
            raise Violation("global-setting-changed", "%s%s changed the process's %s: %s -> %s" % (
                name, " (failing at %s)" % tr.where if fired else "", bad[0], brief(before[bad[0]], 150), brief(after[bad[0]], 150)))
        if t1[4] != t0[4]:
            raise Violation("global-stream-advanced", "%s drew from Python's global random stream" % name)
        if not H.uses_rng and t1 != t0:
            raise Violation("global-stream-advanced", "%s%s, which is %s, advanced numpy's global random stream" % (
                name, " (failing)" if fired else "", "seeded" if name.startswith("Seeded") else "deterministic"))
        done.append(name + ("!" if fired else ""))
        ctx.ev(name, fired, digest(v))
    if not same_deep(v, ref):
        raise Violation("not-reproducible", "%s under the same random stream gives %s after %s, but %s in a fresh process" % (
            case["op"], brief(v), done[:-1], brief(ref)))
    if t1 != tok:
        raise Violation("not-reproducible", "%s draws a different number of random values after %s than in a fresh process" % (case["op"], done[:-1]))
    seams.set_rng(case["s"])
    again, tok2 = evaluate(case["s"])
    if not same_deep(again, ref) or tok2 != tok:
        raise Violation("not-reproducible", "%s repeated under the same random stream gives %s, first %s" % (case["op"], brief(again), brief(ref)))
    if not O.uses_rng:
        other, _ = evaluate(case["s"] ^ 0x2AAAAAA)
        if not same_deep(other, ref):
            raise Violation("depends-on-global-stream", "%s, which is %s, gives %s under one global random stream and %s under another" % (
                case["op"], "seeded" if case["op"].startswith("Seeded") else "deterministic", brief(ref), brief(other)))
    ctx.nontrivial = True
    ctx.count("op " + case["op"])
    ctx.states.add("%s|%s" % (case["op"], ",".join(sorted(done[:-1]))))


CHILD = """
import os, sys, pickle, warnings
sys.path[:0] = [%(repo)r, %(verif)r]
import numpy as np
from sim import seams
from sim.checks import c08
from sim.core import attempt
warnings.simplefilter("ignore"); np.seterr(all="ignore")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1); os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
out = []
for o in pickle.load(open("ops.pkl", "rb")):
    env = c08.op(o["op"]).build(o["spec"])
    seams.set_rng(o["s"])
    out.append(attempt(env.go))
pickle.dump(out, open("out.pkl", "wb"))
"""


def run_hash(case, ctx):
    here = []
    for o in case["hist"]:
        def one(o=o):
            env = op(o["op"]).build(o["spec"])
            seams.set_rng(o["s"])
            return attempt(env.go)
        here.append(pristine(one))
    pickle.dump(case["hist"], open("ops.pkl", "wb"))
    env = dict(os.environ, PYTHONHASHSEED=str(case["hashseed"]))
    import lingam
    repo = os.path.dirname(os.path.dirname(os.path.realpath(lingam.__file__)))
    rc = subprocess.call([sys.executable, "-c", CHILD % {"repo": repo, "verif": VERIF}], env=env)
    if rc != 0:
        raise RuntimeError("child interpreter exited %d" % rc)
    there = pickle.load(open("out.pkl", "rb"))
    for o, a, b in zip(case["hist"], here, there):
        if not same_deep(a, b):
            raise Violation("depends-on-hash-seed", "%s gives %s, but %s in an interpreter with hash seed %d" % (o["op"], brief(a), brief(b), case["hashseed"]))
        ctx.ev(o["op"], digest(a))
        ctx.states.add("hash|" + o["op"])
    ctx.fault("interpreter-restart-with-other-hash-seed")
    ctx.nontrivial = True
