"""C11: intervention answers solve the structural equations, whatever the random stream; they arrive in bounded steps."""
import copy
import hashlib
import random

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.svm import SVR
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from lingam import CausalEffect, DirectLiNGAM, ICALiNGAM

from .. import seams
from ..core import Raised, Violation, attempt, brief, freeze, pristine
from ..models import as_form, sem
from .common import BASE_REAL, gen_fault

ID = "C11"
LEVEL = "exploration"
RUNS = {"quick": 3500, "thorough": 120000}
RULE = ("one run = one causal-effect object over a seeded graph (any variable numbering, exactly cancelling coefficients, matrix, list or "
        "fitted estimator) asked a seeded sequence of intervention questions under changing random-stream positions, some failing at an "
        "injected call, from one thread or several interleaved ones; every answer is put back into the structural equations; "
        "non-trivial: >=2 answers verified; distinct by event-log hash")
STATE_MEASURE = "model form x data form x prediction model x graph size x relation of intervened variable to target"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["numpy/stdlib global RNG position", "thread scheduler", "failing calls"]
ASSUMPTIONS = ["questions whose answer is undefined (the intervention has no effect on the prediction) are not asked",
               "tree predictions are compared only where the evaluated point is not within 1e-9 of a split"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}
PRED = ["lin", "lin", "logit", "tree", "svr", "treec"]


def gen(rng, index, tier):
    mode = rng.choice(["seq", "seq", "threads"])
    ops = []
    for _ in range(rng.randint(2, 6)):
        ops.append({"q": rng.choice(["opt", "opt", "eff"]), "t": rng.randrange(64), "i": rng.randrange(64), "pred": rng.choice(PRED), "lin": rng.choice(["lin", "lin", "lin2"]),
                    "want": round(rng.uniform(-5, 5), 3), "s": rng.randrange(1 << 30), "th": rng.randrange(2),
                    "f": gen_fault(rng) if mode == "seq" and rng.random() < 0.2 else None})
    return {"seed": rng.randrange(1 << 30), "p": rng.choice([2, 3, 4, 4, 5, 6, 8]), "n": rng.randint(20, 60) if rng.random() < 0.98 else rng.randint(520, 1300),
            "form": rng.choice(["nd", "nd", "df", "F", "ro", "view", "dfidx", "list"]), "model": rng.choice(["nd", "nd", "list", "direct", "ica", "F"]),
            "dens": rng.choice([0.2, 0.5, 0.9]), "cancel": rng.random() < 0.3, "tiny": rng.random() < 0.25, "mode": mode, "ops": ops,
            "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng)}


def shrink(case):
    for k, v in (("form", "nd"), ("cancel", False), ("tiny", False), ("mode", "seq"), ("model", "nd")):
        if case[k] != v:
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    for i, o in enumerate(case["ops"]):
        if o["f"]:
            c = copy.deepcopy(case)
            c["ops"][i]["f"] = None
            yield c


class World:
    def __init__(self, case):
        rs = np.random.RandomState(case["seed"] & 0x7FFFFFFF)
        p, n = case["p"], case["n"]
        order = rs.permutation(p)
        B = np.zeros((p, p))
        for a in range(1, p):
            k = order[a]
            ps = [order[b] for b in range(a) if rs.rand() < case["dens"]]
            for q in ps:
                B[k, q] = round(rs.uniform(0.3, 1.5) * rs.choice([-1, 1]), 3)
            if case["cancel"] and len(ps) >= 2:
                B[k, ps[0]] = -B[k, ps[1:]].sum() if rs.rand() < 0.6 else B[k, ps[0]]
                if len(ps) == 2 and rs.rand() < 0.7:
                    B[k, ps[0]], B[k, ps[1]] = 0.5, -0.5
        if case.get("tiny"):       # weak but real effects
            B *= 10.0 ** -rs.choice([0, 0, 0, 2, 3, 4, 5], (p, p))
        self.B = B
        # data with means away from zero; generated from the equations, plus occasionally unrelated data
        X = sem(rs, n, p, B=B) + rs.uniform(-3, 3, p)
        self.X0 = X.copy()
        self.X = as_form(X, case["form"])
        m = case["model"]
        if m == "nd":
            self.arg = B.copy()
        elif m == "F":
            self.arg = np.asfortranarray(B)
        elif m == "list":
            self.arg = B.tolist()
        else:
            est = DirectLiNGAM() if m == "direct" else ICALiNGAM(random_state=0, max_iter=60)
            est.fit(X)
            self.B = np.array(est.adjacency_matrix_)
            self.arg = est
        if not np.all(np.isfinite(self.B)):
            self.B = None
            return
        self.Ex = X.mean(axis=0)
        self.En = self.Ex - self.B @ self.Ex
        self.sd = X.std(axis=0)
        self.preds = {}
        self.rs = rs

    def solve(self, i, v):
        """mean vector of the model in which variable i is held at v"""
        p = len(self.B)
        A = np.eye(p) - self.B
        b = self.En.copy()
        A[i] = 0
        A[i, i] = 1
        b[i] = v
        return np.linalg.solve(A, b)

    def pred(self, kind, t):
        if (kind, t) not in self.preds:
            rest = [i for i in range(self.X0.shape[1]) if i != t]
            P, y = self.X0[:, rest], self.X0[:, t]
            yb = (y > np.median(y)).astype(int)
            m = {"lin": lambda: LinearRegression().fit(P, y), "lin2": lambda: LinearRegression().fit(P, y.reshape(-1, 1)),
                 "logit": lambda: LogisticRegression().fit(P, yb),
                 "tree": lambda: DecisionTreeRegressor(max_depth=3, random_state=0).fit(P, y), "svr": lambda: SVR().fit(P, y),
                 "treec": lambda: DecisionTreeClassifier(max_depth=3, random_state=0).fit(P, yb)}[kind]()
            self.preds[(kind, t)] = m
        return self.preds[(kind, t)]

    def value(self, kind, t, x):
        rest = [i for i in range(len(x)) if i != t]
        m = self.pred(kind, t)
        if kind in ("logit", "treec"):
            a, b = m.predict_proba(x[rest].reshape(1, -1))[0]
            return a - b
        return m.predict(x[rest].reshape(1, -1))[0]

    def near_split(self, kind, t, x):
        if not kind.startswith("tree"):
            return False
        m = self.pred(kind, t)
        rest = [i for i in range(len(x)) if i != t]
        f, th = m.tree_.feature, m.tree_.threshold
        return any(abs(x[rest][f[k]] - th[k]) < 1e-6 for k in range(len(f)) if f[k] >= 0)


def run(case, ctx):
    w = World(case)
    if w.B is None:
        ctx.ev("degenerate")
        return
    p = case["p"]
    ce = CausalEffect(w.arg)
    verified = 0

    def plan(o):
        t = o["t"] % p
        i = o["i"] % p
        if o["q"] == "opt":
            mdl = w.pred(o.get("lin", "lin"), t)
            c = np.insert(mdl.coef_, t, 0.0)
            slope = c @ (w.solve(i, 1.0) - w.solve(i, 0.0))
            if abs(slope) < (1e-6 if case.get("tiny") else 1e-4):
                return None
            return t, i, lambda: ce.estimate_optimal_intervention(w.X, t, mdl, i, o["want"])
        mdl = w.pred(o["pred"], t)
        return t, i, lambda: ce.estimate_effects_on_prediction(w.X, t, mdl)

    def judge(o, t, i, v):
        nonlocal verified
        if isinstance(v, Raised):
            if v.type == "Stuck":
                raise Violation("no-progress", "%s on a %d-variable graph did not finish within 20000 calls" % (o["q"], p))
            raise Violation("question-fails", "%s(target %d, intervene %d) on graph %s raised %s" % (o["q"], t, i, brief(w.B), v))
        if o["q"] == "opt":
            v = float(np.asarray(v).ravel()[0])
            m = w.pred(o.get("lin", "lin"), t)
            x = w.solve(i, v)
            got = float(np.ravel(np.insert(m.coef_, t, 0.0) @ x + m.intercept_)[0])
            if not np.isfinite(v) or abs(got - o["want"]) > 1e-5 * (1 + abs(v) + abs(got)):
                raise Violation("target-not-met", "holding variable %d at %.6g makes the expected prediction %.6g, not the desired %.6g (graph %s)"
                                % (i, v, got, o["want"], brief(w.B)))
        else:
            v = np.asarray(v)
            if v.shape != (p, 2):
                raise Violation("malformed", "effects have shape %s for %d variables" % (v.shape, p))
            for j in range(p):
                pts = [w.solve(j, w.Ex[j]), w.solve(j, w.Ex[j] + w.sd[j]), w.solve(j, w.Ex[j] - w.sd[j])]
                if any(w.near_split(o["pred"], t, x) for x in pts):
                    continue
                y = [w.value(o["pred"], t, x) for x in pts]
                ref = [abs(y[0] - y[1]), abs(y[0] - y[2])]
                if np.abs(v[j] - ref).max() > 1e-6 * (1 + np.abs(ref).max()):
                    raise Violation("wrong-effect", "effect of variable %d on the %s prediction of %d is %s, the structural equations give %s"
                                    % (j, o["pred"], t, brief(v[j]), brief(ref)))
        verified += 1
        anc = bool(abs(np.linalg.inv(np.eye(p) - w.B)[t, i]) > 1e-9) if i != t else None
        ctx.states.add("%s|%s|%s|%d|%s" % (case["model"], case["form"], o["pred"] if o["q"] == "eff" else "opt", p, anc))

    def ask(f):
        with seams.CallTrace(budget=20000) as tr:
            try:
                v = attempt(f)
            except seams.Stuck as e:
                v = Raised(e)
        ctx.steps += tr.n
        return v

    if case["mode"] == "seq":
        for o in case["ops"]:
            pl = plan(o)
            if pl is None:
                continue
            t, i, f = pl
            if o["f"]:
                def dryrun():
                    seams.set_rng(o["s"])
                    with seams.CallTrace(record=True, budget=20000) as dry:
                        try:
                            attempt(f)
                        except seams.Stuck:
                            pass
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
                seams.set_rng(o["s"])
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"], budget=20000) as tr:
                    v = attempt(f)
                if tr.fired:
                    ctx.fault("question-fails:" + o["f"]["kind"])
                ctx.ev(o["q"], t, i, "fault", tr.fired)
                if isinstance(v, Raised):
                    continue
            else:
                seams.set_rng(o["s"])
                v = ask(f)
            judge(o, t, i, v)
            seams.set_rng(o["s"] ^ 0x1234567)
            judge(o, t, i, ask(f))
            ctx.ev(o["q"], t, i, brief(v))
    else:
        todo = [[], []]
        for o in case["ops"]:
            pl = plan(o)
            if pl:
                todo[o["th"]].append((o, pl))
        todo = [x for x in todo if x]
        if not todo:
            return
        sch = seams.Sched(case["sched"], case["policy"])
        for k, lst in enumerate(todo):
            sch.add(lambda lst=lst: [attempt(pl[2]) for o, pl in lst], lst[0][0]["s"])
        outs = sch.run()
        ctx.steps += sch.events
        if sch.switches:
            ctx.interleavings.add(hashlib.sha256(str(sch.trace).encode()).hexdigest()[:16])
            ctx.fault("preemption", sch.switches)
        for lst, (st, vals) in zip(todo, outs):
            if st != "ok":
                raise Violation("question-fails", "thread died: %r" % vals)
            for (o, (t, i, f)), v in zip(lst, vals):
                judge(o, t, i, v)
                ctx.ev("T", o["q"], t, i, brief(v))
    ctx.nontrivial = verified >= 2
    ctx.count("answers verified", verified)
