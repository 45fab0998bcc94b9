"""C10: simulated data follow the trained equations exactly; interventions act where they are made and nowhere else."""
import copy
import random

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from lingam import CausalBasedSimulator

from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, freeze, pristine
from ..models import as_form, sem, var_series
from ..scenarios import dag
from .c03 import fp, scribble
from .common import BASE_REAL, gen_fault

ID = "C10"
LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 120000}
RULE = ("one run = one simulator object driven through a seeded history of trainings (some failing at an injected call or rejected), "
        "simulations with interventions and shuffling (some failing), and the caller overwriting its own data and the returned frames; "
        "every returned frame is checked equation by equation against an independent reference trained on the last successful "
        "training data; non-trivial: >=1 simulation compared after >=2 operations; distinct by event-log hash")
STATE_MEASURE = "graph kind x data form x discrete x interventions x shuffle x history shape"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position", "failing calls"]
ASSUMPTIONS = ["discrete variables without parents keep their training values (they have no residual to shuffle)",
               "reference regressions are scikit-learn models trained by the harness on the same arrays"]
MIN_OPS = {"ops": 1}
ALGOS = ["DirectLiNGAM", "ICALiNGAM", None, "BottomUpParceLiNGAM", "VARLiNGAM"]


def gen_train(rng):
    return {"seed": rng.randrange(1 << 30), "algo": rng.choice(ALGOS), "p": rng.randint(2, 4), "n": rng.randint(25, 45) if rng.random() < 0.98 else rng.randint(520, 1300),
            "form": rng.choice(["nd", "nd", "df", "dfidx", "F", "ro", "list"]), "disc": rng.random() < 0.25,
            "tree": rng.random() < 0.35, "lags": rng.choice([1, 1, 2, 2, 3]), "est": rng.choice(["tree", "tree", "pipe", "poly", "search"]),
            "one": rng.random() < 0.4, "ndisc": rng.choice([1, 1, 2])}


def estimator(kind, discrete):
    if kind == "pipe":
        return Pipeline([("s", StandardScaler()), ("m", LogisticRegression() if discrete else LinearRegression())])
    if kind == "poly" and not discrete:
        return Pipeline([("q", PolynomialFeatures(2)), ("m", LinearRegression())])
    if kind == "search" and not discrete:
        return GridSearchCV(DecisionTreeRegressor(random_state=0), {"max_depth": [1, 2]}, cv=2)
    return DecisionTreeClassifier(max_depth=2, random_state=0) if discrete else DecisionTreeRegressor(max_depth=2, random_state=0)


def gen_run(rng):
    return {"exog": rng.random() < 0.5, "chg": rng.choice([None, None, "cut", "coef", "model", "rewire", "rewire"]), "sh": rng.random() < 0.5,
            "rs": rng.choice([None, 0, 1, 7]), "v": rng.randrange(1 << 20)}


def gen(rng, index, tier):
    ops = [{"op": "train", "t": gen_train(rng), "f": None}]
    if rng.random() < 0.08:
        ops = []
    for _ in range(rng.randint(2, 5)):
        u = rng.random()
        if u < 0.45:
            ops.append({"op": "run", "r": gen_run(rng), "f": None, "s": rng.randrange(1 << 30)})
        elif u < 0.58:
            ops.append({"op": "run", "r": gen_run(rng), "f": gen_fault(rng), "s": rng.randrange(1 << 30)})
        elif u < 0.7:
            ops.append({"op": "train", "t": gen_train(rng), "f": gen_fault(rng)})
        elif u < 0.8:
            ops.append({"op": "badtrain", "t": gen_train(rng), "how": rng.choice(["cyclic", "shape", "algo", "models", "nan"])})
        elif u < 0.85:
            ops.append({"op": "badrun", "how": rng.choice(["name", "length", "cycle", "type"])})
        elif u < 0.95:
            ops.append({"op": "scribble"})
        else:
            ops.append({"op": "train", "t": gen_train(rng), "f": None})
    ops.append({"op": "run", "r": gen_run(rng), "f": None, "s": rng.randrange(1 << 30)})
    return {"ops": ops}


def shrink(case):
    for i, o in enumerate(case["ops"]):
        if o.get("r"):
            for k, v in (("exog", False), ("chg", None), ("sh", False), ("rs", 0)):
                if o["r"][k] != v:
                    c = copy.deepcopy(case)
                    c["ops"][i]["r"][k] = v
                    yield c
        if o.get("t"):
            for k, v in (("form", "nd"), ("disc", False), ("tree", False), ("one", False), ("est", "tree")):
                if o["t"].get(k, v) != v:
                    c = copy.deepcopy(case)
                    c["ops"][i]["t"][k] = v
                    yield c


class Problem:
    """caller-owned inputs of one training, and the independent reference for it"""

    def __init__(self, t):
        rs = np.random.RandomState(t["seed"] & 0x7FFFFFFF)
        p, n = t["p"], t["n"]
        self.t = t
        self.algo = t["algo"]
        isd = None
        if t["algo"] == "VARLiNGAM":
            p = min(p, 3)
            L = t["lags"]
            X = var_series(rs, n, p, L)
            G = np.stack([dag(rs, p)] + [np.round(rs.uniform(-0.6, 0.6, (p, p)), 3) * (rs.rand(p, p) < 0.6) for _ in range(L)])
            if t["disc"]:
                k = int(rs.randint(p))
                X[:, k] = (np.arange(n) * 7 % 3 == 1) if np.ptp(X[:, k]) < 1e-6 else (X[:, k] > np.median(X[:, k]))
                isd = [i == k for i in range(p)]
        else:
            L = 0
            G = dag(rs, p)
            X = sem(rs, n, p, B=G)
            if t["disc"]:
                ks = [int(k) for k in rs.permutation(p)[:min(t.get("ndisc", 1), p - 1)]]
                for k in ks:
                    X[:, k] = (X[:, k] > np.median(X[:, k])).astype(float)
                isd = [i in ks for i in range(p)]
            if t["algo"] == "BottomUpParceLiNGAM":
                free = [(i, j) for i in range(p) for j in range(i) if G[i, j] == 0 and G[j, i] == 0]
                if free:
                    i, j = free[rs.randint(len(free))]
                    G = G.copy()
                    G[i, j] = G[j, i] = np.nan
        self.X0 = X.copy()
        self.X = as_form(X, t["form"])
        self.G = G
        cols = ["v%d" % i for i in range(p)] if t["form"].startswith("df") else [str(i) for i in range(p)]
        # reference view: names, data, parents
        if L:
            self.names = [c + ("[t]" if k == 0 else "[t-%d]" % k) for k in range(L + 1) for c in cols]
            self.D = np.hstack([X[L - k:n - k] for k in range(L + 1)])
            m = p * (L + 1)
            H = np.zeros((m, m))
            H[:p] = np.hstack(list(G))
            self.isd = (isd or [False] * p) * (L + 1)
        else:
            self.names, self.D, H, self.isd = cols, X.copy(), np.nan_to_num(G.copy()), isd or [False] * p
        self.is_discrete = isd
        m = len(self.names)
        self.par = {self.names[i]: [self.names[j] for j in range(m) if abs(H[i, j]) > 1e-8] for i in range(m)}
        self.models = None
        if t["tree"]:
            kind = t.get("est", "tree")
            shared = {d: estimator(kind, d) for d in (False, True)}
            self.models = {nm: shared[self.isd[i]] if t.get("one") else estimator(kind, self.isd[i]) for i, nm in enumerate(self.names)
                           if i % 2 == 0 or t.get("one")}
        # reference training
        self.col = {nm: self.D[:, i] for i, nm in enumerate(self.names)}
        self.fit, self.err = {}, {}
        for i, nm in enumerate(self.names):
            y = self.col[nm]
            if not self.par[nm]:
                self.fit[nm], self.err[nm] = None, y.copy()
                continue
            P = np.column_stack([self.col[q] for q in self.par[nm]])
            if self.models and nm in self.models:
                mdl = clone(self.models[nm])
            else:
                mdl = LogisticRegression() if self.isd[i] else LinearRegression()
            mdl.fit(P, y)
            self.fit[nm] = mdl
            self.err[nm] = None if self.isd[i] else y - mdl.predict(P)
        self.n_eff = len(self.D)

    def train(self, cs):
        kw = {} if self.algo is None else {"cd_algo_name": self.algo}
        return cs.train(self.X, self.G, models=self.models, is_discrete=self.is_discrete, **kw)

    def intervention(self, r):
        rng = random.Random(r["v"])
        rs = np.random.RandomState(r["v"] % (1 << 31))
        cont = [nm for i, nm in enumerate(self.names) if not self.isd[i]]
        exog = None
        if r["exog"] and cont:
            exog = {nm: rs.randn(self.n_eff) for nm in rng.sample(cont, rng.randint(1, min(2, len(cont))))}
            for nm in exog:
                if rng.random() < 0.2:
                    exog[nm] = exog[nm].reshape(-1, 1)
                elif rng.random() < 0.15:
                    exog[nm] = np.arange(self.n_eff)
                elif rng.random() < 0.25:
                    # switched-off or degenerate disturbances
                    exog[nm] = rng.choice([np.zeros(self.n_eff), np.full(self.n_eff, 2.5), np.zeros(self.n_eff, dtype=int),
                                           np.where(np.arange(self.n_eff) % 3 == 0, exog[nm], 0.0), np.full(self.n_eff, -1e-9),
                                           1e6 * exog[nm], exog[nm].astype(np.float32)])
                elif rng.random() < 0.1:
                    exog[nm] = rng.choice([exog[nm].tolist(), pd.Series(exog[nm]), pd.Series(exog[nm], index=np.arange(self.n_eff)[::-1]),
                                           tuple(exog[nm])])
        chg = None
        if r["chg"] == "rewire":
            return exog, self.rewire(rng)
        if r["chg"]:
            order, left = [], list(self.names)
            while left:
                x = next(v for v in left if not set(self.par[v]) & set(left))
                order.append(x)
                left.remove(x)
            tgt = rng.choice(self.names)
            up = order[:order.index(tgt)]
            disc = self.isd[self.names.index(tgt)]
            ps = rng.sample(up, min(len(up), rng.randint(1, 2)))
            if r["chg"] == "cut" or not ps:
                chg = {tgt: {"parent_names": []}}
            elif r["chg"] == "coef":
                chg = {tgt: {"parent_names": ps, "coef": [round(rng.uniform(-2, 2), 3) for _ in ps]}}
            else:
                P = np.column_stack([self.col[q] for q in ps])
                mdl = (LogisticRegression() if disc else LinearRegression()).fit(P, self.col[tgt])
                chg = {tgt: {"parent_names": ps, "model": mdl}}
        return exog, chg

    def rewire(self, rng):
        """new equations for 1-3 variables, whose parents may come from anywhere as long as the whole stays acyclic"""
        par = {k: list(v) for k, v in self.par.items()}
        tgts = rng.sample(self.names, rng.randint(1, min(3, len(self.names))))
        for t in tgts:
            par[t] = []
        chg = {}
        for t in tgts:
            below, todo = {t}, [t]
            while todo:
                x = todo.pop()
                for c in self.names:
                    if x in par[c] and c not in below:
                        below.add(c)
                        todo.append(c)
            free = [v for v in self.names if v not in below]
            ps = rng.sample(free, min(len(free), rng.choice([0, 1, 1, 2, 2, 3])))
            par[t] = ps
            if not ps:
                chg[t] = {"parent_names": []}
            elif rng.random() < 0.6 or self.isd[self.names.index(t)]:
                chg[t] = {"parent_names": list(ps), "coef": [round(rng.uniform(-2, 2), 3) for _ in ps]}
            else:
                P = np.column_stack([self.col[q] for q in ps])
                chg[t] = {"parent_names": list(ps), "model": LinearRegression().fit(P, self.col[t])}
        return chg

    def judge(self, out, r, exog, chg):
        """None or (class, message)"""
        if not isinstance(out, pd.DataFrame) or [str(c) for c in out.columns] != self.names or len(out) != self.n_eff:
            return "malformed-output", "columns %s rows %s, expected %s x %d" % (
                list(getattr(out, "columns", [])), len(out), self.names, self.n_eff)
        S = {nm: np.asarray(out[nm], dtype=float) for nm in self.names}
        scale = 1 + max(np.abs(v).max() for v in S.values())
        perm = np.arange(self.n_eff)
        exp, errs, preds = {}, {}, {}
        for i, nm in enumerate(self.names):
            par = self.par[nm]
            mdl = self.fit[nm]
            if chg and nm in chg:
                par = chg[nm]["parent_names"]
                mdl = None
                if par:
                    mdl = chg[nm].get("model")
            P = np.column_stack([S[q] for q in par]) if par else None
            err = exog[nm] if exog and nm in exog else self.err[nm]
            if self.isd[i]:
                if P is None:
                    preds[nm] = self.col[nm]
                elif mdl is None:
                    preds[nm] = (P @ np.array(chg[nm]["coef"]) >= 0).astype(float)
                else:
                    preds[nm] = mdl.predict(P).astype(float)
                errs[nm] = None
            else:
                if P is None:
                    preds[nm] = np.zeros(self.n_eff)
                elif mdl is None:
                    preds[nm] = P @ np.array(chg[nm]["coef"])
                else:
                    preds[nm] = mdl.predict(P)
                errs[nm] = np.asarray(err, dtype=float).ravel()
        if r["sh"]:
            best = None
            for nm in self.names:
                if errs[nm] is not None:
                    e = np.sort(errs[nm])
                    gap = np.diff(e).min() if len(e) > 1 else 0
                    if best is None or gap > best[0]:
                        best = (gap, nm)
            if best is None or best[0] < 1e-7 * scale:
                return None
            nm = best[1]
            res = S[nm] - preds[nm]
            D = np.abs(res[:, None] - errs[nm][None, :])
            perm = D.argmin(axis=1)
            if D[np.arange(len(perm)), perm].max() > 1e-8 * scale:
                return "equation-violated", "shuffled %s is not prediction plus a training residual" % nm
            if sorted(perm) != list(range(self.n_eff)):
                return "not-a-permutation", "shuffled residuals of %s are not a permutation of the residuals" % nm
            if np.array_equal(perm, np.arange(self.n_eff)):
                return "not-shuffled", "residuals were requested shuffled but kept their order"
        for i, nm in enumerate(self.names):
            want = preds[nm] if errs[nm] is None else preds[nm] + errs[nm][perm]
            if np.abs(S[nm] - want).max() > 1e-7 * scale:
                k = int(np.abs(S[nm] - want).argmax())
                return "equation-violated", "%s at row %d is %s, its equation gives %s (parents %s, intervened %s)" % (
                    nm, k, S[nm][k], want[k], self.par[nm], bool((exog and nm in exog) or (chg and nm in chg)))
        if not exog and not chg and not r["sh"]:
            for i, nm in enumerate(self.names):
                if not self.isd[i] and not any(self.isd[self.names.index(q)] for q in self.names) and \
                        np.abs(S[nm] - self.col[nm]).max() > 1e-6 * scale:
                    return "training-data-not-reproduced", "%s differs from the training data without any intervention" % nm
        return None


def run(case, ctx):
    cs = CausalBasedSimulator()
    cur = None
    owned = []
    shape = []
    compared = 0
    for i, o in enumerate(case["ops"]):
        op = o["op"]
        shape.append(op + ("!" if o.get("f") else ""))
        if op == "train":
            pr = Problem(o["t"])
            prints = (fp(pr.X), fp(pr.G))
            if o["f"]:
                def dryrun():
                    with seams.CallTrace(record=True) as dry:
                        attempt(lambda: pr.train(CausalBasedSimulator()) and None)
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    v = attempt(lambda: (pr.train(cs), None)[1])
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("training-fails:" + o["f"]["kind"])
                if not isinstance(v, Raised):
                    cur = pr
            else:
                v = attempt(lambda: (pr.train(cs), None)[1])
                if isinstance(v, Raised):
                    ctx.count("training rejected: " + v.type)
                else:
                    cur = pr
            if (fp(pr.X), fp(pr.G)) != prints:
                raise Violation("input-modified", "training changed the caller's data or graph")
            if not isinstance(v, Raised):
                owned += [pr.X, pr.G] + list((pr.models or {}).values())
            ctx.ev(i, op, v)
        elif op == "badtrain":
            pr = Problem(dict(o["t"], disc=False))
            G, kw = pr.G, {}
            if o["how"] == "cyclic":
                G = np.ones_like(np.nan_to_num(pr.G))
            elif o["how"] == "shape":
                G = np.zeros((9, 9))
            elif o["how"] == "algo":
                kw = {"cd_algo_name": "NoSuchLiNGAM"}
            elif o["how"] == "models":
                kw = {"models": {"nobody": LinearRegression()}}
            elif o["how"] == "nan":
                pr.X = np.full((30, pr.X0.shape[1]), np.nan)
            if "cd_algo_name" not in kw and pr.algo:
                kw["cd_algo_name"] = pr.algo
            v = attempt(lambda: (cs.train(pr.X, G, **kw), None)[1])
            if not isinstance(v, Raised):
                raise Violation("bad-training-accepted", "training with %s input was accepted" % o["how"])
            ctx.fault("training-rejected:" + o["how"])
            ctx.ev(i, op, o["how"], v)
        elif op == "badrun":
            if cur is None:
                continue
            nm = cur.names[0]
            kw = {"name": {"changing_exog": {"nobody": np.zeros(cur.n_eff)}}, "length": {"changing_exog": {nm: np.zeros(cur.n_eff + 1)}},
                  "cycle": {"changing_models": {nm: {"parent_names": [nm], "coef": [1.0]}}}, "type": {"changing_exog": [1, 2]}}[o["how"]]
            v = attempt(lambda: cs.run(**kw))
            if not isinstance(v, Raised):
                raise Violation("bad-intervention-accepted", "simulation with a wrong intervention (%s) returned data" % o["how"])
            ctx.fault("simulation-rejected:" + o["how"])
            ctx.ev(i, op, o["how"], v)
        elif op == "scribble":
            for x in owned:
                if isinstance(x, DecisionTreeRegressor):
                    # the caller trains its estimator for something else
                    x.fit(np.arange(6.0).reshape(6, 1), np.array([5.0, -5, 9, 2, 0, 1]))
                else:
                    scribble(x)
            owned = []
            ctx.fault("caller-overwrites-its-data")
            ctx.ev(i, op)
        else:
            r = o["r"]
            if cur is None:
                v = attempt(lambda: cs.run())
                if not isinstance(v, Raised):
                    raise Violation("simulates-untrained", "an untrained simulator returned data")
                ctx.ev(i, "run-untrained", v)
                continue
            exog, chg = cur.intervention(r)
            keep = (fp(exog), fp(chg))

            def go():
                return cs.run(changing_exog=exog, changing_models=chg, shuffle_residual=r["sh"], random_state=r["rs"])
            if o["f"]:
                def dryrun():
                    with seams.CallTrace(record=True) as dry:
                        attempt(go)
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
                seams.set_rng(o["s"])
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    v = attempt(go)
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("simulation-fails:" + o["f"]["kind"])
                ctx.ev(i, "run!", tr.fired)
                continue
            seams.set_rng(o["s"])
            hold = {}

            def call():
                hold["v"] = go()
                return hold["v"]
            with seams.CallTrace() as tr:
                v = attempt(call)
            ctx.steps += tr.n
            if isinstance(v, Raised):
                raise Violation("simulation-fails", "history %s: a legal simulation (%s) raised %s" % (shape, r, v))
            if (fp(exog), fp(chg)) != keep:
                raise Violation("input-modified", "simulation changed the caller's interventions")
            bad = cur.judge(hold["v"], r, exog, chg)
            if bad:
                raise Violation(bad[0], "history %s, training %s, simulation %s: %s" % (shape, {k: cur.t[k] for k in ("algo", "p", "form", "disc", "tree")}, r, bad[1]))
            if r["rs"] is not None or not r["sh"]:
                seams.set_rng(o["s"] + 1)
                v2 = attempt(go)
                if digest(v) != digest(v2):
                    raise Violation("not-repeatable", "history %s: the same simulation (%s) repeated gives other data" % (shape, r))
            owned.append(hold["v"])
            compared += 1
            ctx.count("simulations compared")
            ctx.states.add("%s|%s|%s|%s|%s|%s|%s" % (cur.algo, cur.t["form"], cur.is_discrete is not None, bool(exog), chg and r["chg"], r["sh"], len(shape)))
            ctx.ev(i, "run", digest(v))
    ctx.nontrivial = compared >= 1 and len(shape) >= 2
