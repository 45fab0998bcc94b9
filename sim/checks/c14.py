"""C14: tuning shows every configuration the same folds, scores what came back, and picks as documented."""
import copy
import hashlib
import random

import numpy as np
import pandas as pd
from sklearn.ensemble import RandomForestRegressor
from sklearn.model_selection import KFold, ShuffleSplit

from lingam import DirectLiNGAM, ICALiNGAM
from lingam.experimental import OutOfSampleCausalTuning

from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, pristine
from ..models import as_form, sem
from .c03 import fp, scribble
from .common import BASE_REAL, gen_fault

ID = "C14"
LEVEL = "exploration"
RUNS = {"quick": 900, "thorough": 30000}
RULE = ("one run = one tuning object driven through a seeded history of tunings over simulated discovery methods (each recording what it was "
        "built with and shown; one may fail at a chosen fold or answer malformed), some failing at an injected call, from one thread or two "
        "interleaved ones; call histories, performances, Markov blanket sizes, p-values and the choice are recomputed by a reference; "
        "non-trivial: >=1 tuning with >=2 configurations verified; distinct by event-log hash")
STATE_MEASURE = "fold scheme x penalty x number of configurations x party behaviour x history shape"
REAL = BASE_REAL
STUB = ["discovery methods under comparison (simulated parties; DirectLiNGAM/ICALiNGAM run in part of the runs)",
        "RandomForestRegressor (deterministic least squares behind the same class, so that performances can be recomputed)",
        "numpy/stdlib global RNG position", "thread scheduler", "failing calls"]
ASSUMPTIONS = ["discovery methods do not modify the data they are shown (C03 holds for those of this library)",
               "performances are defined (every variable and its prediction vary)"]
MIN_OPS = {"ops": 1}


# ---------------------------------------------------------------- forest stub
class Forest:
    """context manager: RandomForestRegressor.fit/predict become least squares with intercept."""

    def __enter__(self):
        self.saved = {k: RandomForestRegressor.__dict__.get(k) for k in ("fit", "predict")}

        def fit(self_, X, y, *a, **k):
            X = np.asarray(X, dtype=float)
            A = np.hstack([X, np.ones((len(X), 1))])
            self_.w_ = np.linalg.lstsq(A, np.asarray(y, dtype=float), rcond=None)[0]
            return self_

        def predict(self_, X):
            X = np.asarray(X, dtype=float)
            return np.hstack([X, np.ones((len(X), 1))]) @ self_.w_
        RandomForestRegressor.fit = fit
        RandomForestRegressor.predict = predict
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            if v is None:
                delattr(RandomForestRegressor, k)
            else:
                setattr(RandomForestRegressor, k, v)
        return False


def lsq(X, y, T):
    if X.shape[1] == 0:
        return np.full(len(T), y.mean())
    A = np.hstack([X, np.ones((len(X), 1))])
    return np.hstack([T, np.ones((len(T), 1))]) @ np.linalg.lstsq(A, y, rcond=None)[0]


# --------------------------------------------------------------------- parties
def graph_of(tag, dens, p, train, special):
    h = hashlib.sha256(np.ascontiguousarray(train).tobytes() + str(tag).encode()).digest()
    rs = np.random.RandomState(int.from_bytes(h[:4], "big"))
    G = np.zeros((p, p))
    for i in range(p):
        for j in range(p):
            if i != j and rs.rand() < dens:
                G[i, j] = rs.choice([-1, 1]) * rs.uniform(0.2, 2)
    if special == "nan":
        i, j = rs.permutation(p)[:2]
        G[i, j] = G[j, i] = np.nan
    elif special == "tiny":
        G[rs.rand(p, p) < 0.4] = 1e-10
        np.fill_diagonal(G, 0)
    elif special == "cancel" and p >= 3:
        G[0, 1], G[0, 2] = 1.0, -1.0
    return G


class Factory:
    """a discovery method: called to build, records everything it is given."""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.built, self.seen = [], []

    def __call__(self, **kw):
        self.built.append(dict(kw))
        return Method(self)


class Method:
    def __init__(self, f):
        self.f = f
        self.used = 0

    def fit(self, X, **kw):
        f = self.f
        self.used += 1
        k = len(f.seen)
        f.seen.append((np.array(X, copy=True), dict(kw), self.used))
        if f.c.get("fail") is not None and k == f.c["fail"]:
            raise seams.PARTY[f.c["failkind"]]("method fails")
        self.adjacency_matrix_ = graph_of(f.c["tag"], f.c["dens"], f.p, X, f.c["special"])
        return self


def gen_config(rng):
    u = rng.random()
    if u < 0.12:
        return {"kind": "others"}
    if u < 0.2:
        return {"kind": rng.choice(["direct", "ica"])}
    return {"kind": "sim", "tag": rng.randrange(6), "dens": rng.choice([0.0, 0.2, 0.2, 0.5, 0.8]),
            "special": rng.choice([None, None, "nan", "tiny", "cancel"]),
            "init": rng.choice([None, {"a": rng.randrange(9)}]), "fitkw": rng.choice([None, {"b": rng.randrange(9)}])}


def gen_tune(rng, index):
    pen = rng.random() < 0.25
    return {"seed": rng.randrange(1 << 30), "n": rng.randint(18, 40) if rng.random() < 0.98 else rng.randint(300, 700), "p": rng.randint(2, 4), "form": rng.choice(["nd", "nd", "F", "list", "df", "ro", "strided"]),
            "configs": [gen_config(rng) for _ in range(rng.choice([1, 2, 2, 3, 3, 4]) if not pen else rng.choice([2, 2, 3]))],
            "pen": pen, "f": None, "bad": None}


def gen(rng, index, tier):
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        t = gen_tune(rng, index)
        u = rng.random()
        if u < 0.15:
            t["f"] = gen_fault(rng)
        elif u < 0.3:
            sims = [i for i, c in enumerate(t["configs"]) if c["kind"] == "sim"]
            if sims:
                c = t["configs"][rng.choice(sims)]
                c["fail"], c["failkind"] = rng.choice([0, 0, 1, 1, 2]), rng.choice([k for k in seams.PARTY_KINDS if k != "interrupt"])
        elif u < 0.38:
            t["bad"] = rng.choice(["configs-type", "configs-empty", "config-type", "unknown-key", "model", "nan", "one-column"])
        ops.append(t)
    for t in ops[:-1]:
        t["pen"] = t["pen"] and rng.random() < 0.3
    ops[-1]["f"] = ops[-1]["bad"] = None
    for c in ops[-1]["configs"]:
        c.pop("fail", None)
    cv = rng.choice(["int", "int", "kfold", "kfold-free", "list", "shuffle", "shuffle-free"])
    case = {"ops": ops, "cv": cv, "k": rng.randint(2, 4), "rs": rng.choice([None, 0, 7]), "thr": rng.choice([0.01, 0.05, 0.3, 0.6]),
            "pen": any(t["pen"] for t in ops), "s": rng.randrange(1 << 30), "threads": rng.random() < 0.15, "twice": rng.random() < 0.35}
    if case["threads"]:
        case["pen"] = False
        case["sched"], case["policy"] = rng.randrange(1 << 30), seams.gen_policy(rng)
        case["ops"] = [t for t in ops if not t["f"]][-2:]
        if len(case["ops"]) < 2:
            t = gen_tune(rng, index)
            case["ops"].append(t)
    return case


def shrink(case):
    for i, t in enumerate(case["ops"]):
        for j in range(len(t["configs"])):
            if len(t["configs"]) > 1:
                c = copy.deepcopy(case)
                del c["ops"][i]["configs"][j]
                yield c
    if case["pen"]:
        c = copy.deepcopy(case)
        c["pen"] = False
        yield c


def make_cv(case, n):
    k, kind = case["k"], case["cv"]
    if kind == "int":
        return k
    if kind == "kfold":
        return KFold(k, shuffle=True, random_state=3)
    if kind == "kfold-free":
        return KFold(k, shuffle=True)
    if kind == "shuffle":
        return ShuffleSplit(k, test_size=0.3, random_state=5)
    if kind == "shuffle-free":
        return ShuffleSplit(k, test_size=0.3)
    return None      # a list, made for each data set


class Tune:
    def __init__(self, t, case):
        self.t, self.case = t, case
        rs = np.random.RandomState(t["seed"] & 0x7FFFFFFF)
        self.A = sem(rs, t["n"], t["p"])
        self.X = as_form(self.A.copy(), t["form"])
        self.factories = []
        self.configs = []
        for c in t["configs"]:
            if c["kind"] == "others":
                self.configs.append({"all_others": True})
                self.factories.append(None)
            elif c["kind"] in ("direct", "ica"):
                m = {"direct": DirectLiNGAM, "ica": ICALiNGAM}[c["kind"]]
                self.configs.append({"model": m, "init_kwargs": {"random_state": 0}})
                self.factories.append(None)
            else:
                f = Factory(c, t["p"])
                d = {"model": f}
                if c["init"] is not None:
                    d["init_kwargs"] = dict(c["init"])
                if c["fitkw"] is not None:
                    d["fit_kwargs"] = dict(c["fitkw"])
                self.configs.append(d)
                self.factories.append(f)
        self.rawconfigs = [dict(c, **{k: dict(v) for k, v in c.items() if isinstance(v, dict)}) for c in self.configs]
        bad = t["bad"]
        self.args = (self.X, self.configs)
        if bad == "configs-type":
            self.args = (self.X, tuple(self.configs))
        elif bad == "configs-empty":
            self.args = (self.X, [])
        elif bad == "config-type":
            self.args = (self.X, self.configs + [3])
        elif bad == "unknown-key":
            self.args = (self.X, self.configs + [{"modell": DirectLiNGAM}])
        elif bad == "model":
            self.args = (self.X, self.configs + [{"model": "DirectLiNGAM"}])
        elif bad == "nan":
            self.args = (np.full((20, 3), np.nan), self.configs)
        elif bad == "one-column":
            self.args = (np.zeros((20, 1)), self.configs)

    def lists(self):
        n, k = self.t["n"], self.case["k"]
        rs = np.random.RandomState(n * 7 + k)
        out = []
        for i in range(k):
            pm = rs.permutation(n)
            out.append((pm[n // 4:], pm[: n // 4]))
        return out

    def fails(self):
        return self.t["bad"] is not None or any(c.get("fail") is not None and c["fail"] < self.case["k"] for c in self.t["configs"])


def mb(G, i, p):
    e = lambda a, b: not np.isclose(G[a, b], 0)
    out = set()
    for j in range(p):
        if e(i, j):
            out.add(j)
        if e(j, i):
            out.add(j)
            out |= {k for k in range(p) if e(j, k) and k != i}
    return sorted(out)


def mi(x, y):
    return -0.5 * np.log(1 - np.corrcoef(x, y)[0, 1] ** 2)


def reference(tu, folds):
    """per configuration (performance, mean blanket size, predictions per variable)"""
    t, A = tu.t, tu.A
    p = t["p"]
    out = []
    truth = np.concatenate([te for _, te in folds])
    for c in t["configs"]:
        sizes, preds = [], [[] for _ in range(p)]
        for tr, te in folds:
            D = A[tr]
            if c["kind"] == "sim":
                G = graph_of(c["tag"], c["dens"], p, D, c["special"])
            elif c["kind"] == "others":
                G = None
            else:
                G = {"direct": DirectLiNGAM, "ica": ICALiNGAM}[c["kind"]](random_state=0).fit(D).adjacency_matrix_
            for i in range(p):
                b = [j for j in range(p) if j != i] if G is None else mb(G, i, p)
                sizes.append(len(b))
                preds[i].append(lsq(D[:, b], D[:, i], A[te][:, b]))
        preds = [np.concatenate(q) for q in preds]
        perf = float(np.mean([mi(A[truth, i], preds[i]) for i in range(p)]))
        out.append((perf, float(np.mean(sizes)), preds))
    return out, truth


def pvalue(A, truth, best, other, t_obs, seed):
    rs = np.random.RandomState(seed)
    N, p, n = 1000, A.shape[1], len(truth)
    d = np.zeros(N)

    def info(t, q):
        z = lambda v: (v - v.mean()) / np.sqrt(((v - v.mean()) ** 2).sum())
        return -0.5 * np.log(1 - (z(q)[np.argsort(rs.rand(N, n), axis=1)] @ z(t)) ** 2)
    for i in range(p):
        d += info(A[truth, i], best[i]) - info(A[truth, i], other[i])
    return float((d / p > t_obs).mean())


def outcome(o):
    return {"best": o.best_config_index_, "scores": o.scores_}


def match_folds(tu, case):
    """the folds the methods were shown, in order (None when nobody looked); violations of the protocol raise"""
    t = tu.t
    folds = None
    for ci, (c, f) in enumerate(zip(t["configs"], tu.factories)):
        if f is None:
            continue
        what = "configuration %d" % ci
        if len(f.seen) != case["k"]:
            raise Violation("protocol", "%s was fitted %d times for %d folds" % (what, len(f.seen), case["k"]))
        if len(f.built) != len(f.seen) or any(u != 1 for _, _, u in f.seen):
            raise Violation("protocol", "%s: %d objects built for %d fits" % (what, len(f.built), len(f.seen)))
        for b in f.built:
            if b != (c["init"] or {}):
                raise Violation("protocol", "%s was built with %s instead of %s" % (what, b, c["init"]))
        mine = []
        for X, kw, _ in f.seen:
            if kw != (c["fitkw"] or {}):
                raise Violation("protocol", "%s was fitted with %s instead of %s" % (what, kw, c["fitkw"]))
            if X.shape[1:] != tu.A.shape[1:]:
                raise Violation("protocol", "%s was shown data of shape %s" % (what, X.shape))
            idx = []
            for row in X:
                hit = np.flatnonzero((tu.A == row).all(axis=1))
                if len(hit) != 1:
                    raise Violation("protocol", "%s was shown a row that is not in the data" % what)
                idx.append(int(hit[0]))
            mine.append(idx)
        if folds is None:
            folds = mine
        elif folds != mine:
            raise Violation("unequal-folds", "%s was judged on other folds than an earlier configuration (cv=%s): training rows %s.. / %s.." % (
                what, case["cv"], mine[0][:6], folds[0][:6]))
    return folds


def all_folds(tu, case, cv):
    """folds known without looking (deterministic splitters)"""
    n = tu.t["n"]
    if case["cv"] == "list":
        return [(np.asarray(a), np.asarray(b)) for a, b in tu.lists()]
    if case["cv"] == "int":
        return list(KFold(cv).split(tu.A))
    if case["cv"] in ("kfold", "shuffle"):
        return list(cv.split(tu.A))
    return None


def judge(tu, case, cv, out, thr, pen, ctx):
    t = tu.t
    n, p = t["n"], t["p"]
    shown = match_folds(tu, case)
    folds = all_folds(tu, case, cv)
    if folds is not None and shown is not None and [list(a) for a, _ in folds] != shown:
        raise Violation("protocol", "training rows shown are not those of the given splitter (cv=%s)" % case["cv"])
    if folds is None and case["cv"] == "kfold-free" and shown is not None:
        if any(len(a) != len(set(a)) for a in shown) or sorted(i for a in shown for i in set(range(n)) - set(a)) != list(range(n)):
            raise Violation("protocol", "the folds shown are no %d-fold partition" % case["k"])
        folds = [(np.array(a), np.array(sorted(set(range(n)) - set(a)))) for a in shown]
    sc = out["scores"]
    m = len(t["configs"])
    perf, size = list(sc["performance"]), list(sc["mb_size"])
    if len(perf) != m or len(size) != m:
        raise Violation("records-lost", "%d configurations, %d performances, %d sizes" % (m, len(perf), len(size)))
    best = out["best"]
    if not (0 <= best < m):
        raise Violation("wrong-choice", "best index %s of %d configurations" % (best, m))
    preds = truth = None
    if folds is not None:
        ref, truth = reference(tu, folds)
        if not all(np.isfinite(r[0]) for r in ref):
            ctx.count("tunings with undefined performance (not judged)")
            return
        preds = [r[2] for r in ref]
        for i in range(m):
            if abs(ref[i][0] - perf[i]) > 1e-6 * max(1, abs(ref[i][0])) + 1e-9:
                raise Violation("wrong-performance", "configuration %d: reported %.9g, recomputed %.9g" % (i, perf[i], ref[i][0]))
            if abs(ref[i][1] - size[i]) > 1e-9:
                raise Violation("wrong-size", "configuration %d: reported blanket size %.6g, recomputed %.6g" % (i, size[i], ref[i][1]))
    elif not np.isfinite(perf).all():
        return
    top = max(perf)
    tops = [i for i in range(m) if perf[i] >= top - 1e-9 * max(1, abs(top))]
    if not pen:
        if sc["sp_score"] is not None:
            raise Violation("wrong-choice", "penalty scores reported although the penalty is off")
        if best not in tops:
            raise Violation("wrong-choice", "performances %s, chosen %d" % (brief(perf), best))
    else:
        ps = sc["sp_score"]
        left = [i for i in range(m) if i not in ps]
        if len(left) != 1 or left[0] not in tops or set(ps) - set(range(m)):
            raise Violation("records-lost", "p-values for %s; performances %s" % (sorted(ps), brief(perf)))
        b = left[0]
        if preds is not None:
            for i, v in ps.items():
                want = pvalue(tu.A, truth, preds[b], preds[i], perf[b] - perf[i], 11 + i)
                ctx.count("p-values recomputed")
                if not abs(v - want) <= 0.14:
                    raise Violation("wrong-p-value", "configuration %d: reported p=%.3f, an independent permutation test gives %.3f" % (i, v, want))
        cand = [b] + [i for i, v in ps.items() if v > thr]
        mn = min(size[i] for i in cand)
        if best not in cand or size[best] > mn + 1e-9:
            raise Violation("wrong-choice", "candidates %s (p-values %s, threshold %s), blanket sizes %s, chosen %d" % (cand, ps, thr, brief(size), best))
        ctx.count("tunings with penalty judged")
    ctx.count("tunings judged")


def run(case, ctx):
    with Forest():
        (run_threads if case["threads"] else run_seq)(case, ctx)


def run_threads(case, ctx):
    objs = []
    for t in case["ops"][:2]:
        tu = Tune(t, case)
        cv = make_cv(case, t["n"])
        o = OutOfSampleCausalTuning(cv=cv if cv is not None else tu.lists(), sparsity_penalty=False, random_state=case["rs"])
        objs.append((tu, cv, o))
    sch = seams.Sched(case["sched"], case["policy"])
    for i, (tu, cv, o) in enumerate(objs):
        sch.add(lambda tu=tu, o=o: attempt(lambda: (o.fit(*tu.args), None)[1]), case["s"] + i)
    outs = sch.run()
    ctx.steps += sch.events
    ctx.count("context switches", sch.switches)
    if sch.switches:
        ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
    for (tu, cv, o), (st, v) in zip(objs, outs):
        v = Raised(v) if st == "raise" else v
        if isinstance(v, Raised):
            if not tu.fails():
                raise Violation("tuning-fails", "a legal tuning raised %s in a thread" % v)
            continue
        if tu.fails():
            raise Violation("failure-hidden", "a failing configuration left no error")
        judge(tu, case, cv, outcome(o), case["thr"], False, ctx)
    ctx.nontrivial = sch.switches > 0
    ctx.states.add("threads|%s" % case["cv"])
    ctx.ev("threads", sch.switches, [digest(attempt(outcome, o)) for _, _, o in objs], hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])


def run_seq(case, ctx):
    o = OutOfSampleCausalTuning(cv=2, sparsity_penalty=False, thr=case["thr"], random_state=case["rs"])
    shape = []
    last = None
    for i, t in enumerate(case["ops"]):
        tu = Tune(t, case)
        pen = bool(t["pen"] and case["pen"])
        cv = make_cv(case, t["n"])
        o.cv = cv if cv is not None else tu.lists()
        o.sparsity_penalty = pen
        shape.append("tune" + ("!" if t["f"] else "") + ("?" if t["bad"] else "") + ("x" if tu.fails() and not t["bad"] else ""))
        keep = fp(tu.X)
        seams.set_rng(case["s"] + i)
        if t["f"]:
            def dryrun():
                tu2 = Tune(dict(t, f=None), case)
                o2 = OutOfSampleCausalTuning(cv=o.cv, sparsity_penalty=False, thr=case["thr"], random_state=case["rs"])
                with seams.CallTrace(record=True) as dry:
                    attempt(lambda: (o2.fit(*tu2.args), None)[1])
                return seams.Calls(dry)
            k = seams.pick_call(pristine(dryrun), random.Random(t["f"]["pick"]))
            with seams.CallTrace(fail_at=k, kind=t["f"]["kind"]) as tr:
                v = attempt(lambda: (o.fit(*tu.args), None)[1])
            ctx.steps += tr.n
            if tr.fired:
                ctx.fault("tuning-fails:" + t["f"]["kind"])
        else:
            with seams.CallTrace() as tr:
                v = attempt(lambda: (o.fit(*tu.args), None)[1])
            ctx.steps += tr.n
            if tu.fails():
                ctx.fault("rejected:" + t["bad"] if t["bad"] else "method-fails")
                if not isinstance(v, Raised):
                    raise Violation("failure-hidden", "history %s: a %s left no error" % (shape, t["bad"] or "failing discovery method"))
            elif isinstance(v, Raised):
                raise Violation("tuning-fails", "history %s: a legal tuning %s raised %s" % (shape, t, v))
        if fp(tu.X) != keep or [{k: v for k, v in c.items()} for c in tu.configs] != tu.rawconfigs:
            raise Violation("input-modified", "the caller's data or configurations were changed")
        now = attempt(outcome, o)
        if isinstance(v, Raised):
            if last is None:
                if not isinstance(now, Raised):
                    raise Violation("failed-tuning-exposed", "history %s: a failed first tuning exposes %s" % (shape, brief(now)))
            elif digest(now) != digest(last):
                raise Violation("failed-tuning-exposed", "history %s: after a failed tuning %s is exposed, before it was %s" % (shape, brief(now), brief(last)))
        else:
            if isinstance(now, Raised):
                raise Violation("tuning-fails", "no outcome after a tuning: %s" % now)
            judge(tu, case, cv, outcome(o), case["thr"], pen, ctx)
            last = now
            if case["rs"] is not None and not case["cv"].endswith("free"):
                scribble(tu.A)
                scribble(tu.X)
                if digest(attempt(outcome, o)) != digest(last):
                    raise Violation("aliased", "overwriting the data after a tuning changed its outcome")
            if i == len(case["ops"]) - 1 and case.get("twice") and case["rs"] is not None and not case["cv"].endswith("free"):
                def again():
                    tu2 = Tune(t, case)
                    seams.set_rng(case["s"] + 17)
                    o2 = OutOfSampleCausalTuning(cv=o.cv, sparsity_penalty=pen, thr=case["thr"], random_state=case["rs"])
                    return attempt(lambda: outcome(o2.fit(*tu2.args)))
                if digest(pristine(again)) != digest(last):
                    raise Violation("depends-on-history", "history %s: a new tuner with the same seed and another global stream gives another outcome" % shape)
                ctx.count("tunings repeated by a new tuner")
            ctx.nontrivial = ctx.nontrivial or len(t["configs"]) >= 2
        ctx.states.add("%s|%s|%d|%s|%d" % (case["cv"], pen, len(t["configs"]), t["bad"] or tu.fails() or bool(t["f"]), len(shape)))
        ctx.ev(i, shape[-1], digest(now))
