"""C13: generated data follow the last successful fit; replaced parts, and only those, are replaced."""
import copy
import random

import numpy as np
import pandas as pd
from sklearn.compose import ColumnTransformer
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import OneHotEncoder
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from lingam.experimental import CausalDataGenerator

from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, pristine
from ..models import sem
from .c03 import fp, scribble
from .common import BASE_REAL, gen_fault

ID = "C13"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 80000}
RULE = ("one run = one generator object driven through a seeded history of fits (some failing at an injected call or rejected), generations "
        "with replaced values, errors and outside model functions (which may work in place, answer malformed or fail) and the caller "
        "overwriting its data; each generated frame is recomputed by an independent reference of the last successful fit; non-trivial: "
        ">=1 generation compared after >=2 operations; distinct by event-log hash")
STATE_MEASURE = "categorical parts x adjustments x replaced parts x party behaviour x history length"
REAL = BASE_REAL
STUB = ["outside model functions handed in by the caller (simulated parties)", "numpy/stdlib global RNG position", "failing calls"]
ASSUMPTIONS = ["all columns of the data are cause, effect or adjustments", "replacement values are arrays or lists"]
MIN_OPS = {"ops": 1}


def gen_fit(rng):
    return {"seed": rng.randrange(1 << 30), "n": rng.randint(25, 60) if rng.random() < 0.98 else rng.randint(520, 1300), "na": rng.choice([0, 1, 1, 2, 2]),
            "cat": [rng.random() < 0.25, rng.random() < 0.25, rng.random() < 0.2],
            "own": [rng.random() < 0.3, rng.random() < 0.3], "index": rng.choice(["range", "range", "rev", "dup", "str"]),
            "cols": rng.randrange(24), "adjform": rng.choice(["list", "array"])}


def gen_gen(rng):
    return {"v": rng.randrange(1 << 30), "endog": rng.choice([None, None, "cause", "effect", "both", "adj", "all"]),
            "exog": rng.choice([None, None, "cause", "effect", "adj", "all"]), "cm": rng.choice([None, None, None, "fn", "inplace", "keep"]),
            "em": rng.choice([None, None, None, "fn", "inplace", "keep"]), "list": rng.random() < 0.3}


def gen(rng, index, tier):
    ops = [{"op": "fit", "t": gen_fit(rng), "f": None}]
    for _ in range(rng.randint(1, 5)):
        u = rng.random()
        if u < 0.4:
            ops.append({"op": "gen", "g": gen_gen(rng), "s": rng.randrange(1 << 30), "f": gen_fault(rng) if rng.random() < 0.2 else None})
        elif u < 0.55:
            ops.append({"op": "fit", "t": gen_fit(rng), "f": gen_fault(rng) if rng.random() < 0.7 else None})
        elif u < 0.65:
            ops.append({"op": "badfit", "t": gen_fit(rng), "how": rng.choice(["cause", "effect", "adj", "nan", "type", "model", "raise"]),
                        "exc": rng.choice(seams.PARTY_KINDS)})
        elif u < 0.8:
            ops.append({"op": "badgen", "how": rng.choice(["name", "length", "type", "callable", "raise-cause", "raise-effect"]),
                        "exc": rng.choice(seams.PARTY_KINDS)})
        else:
            ops.append({"op": "scribble"})
    ops.append({"op": "gen", "g": gen_gen(rng), "s": rng.randrange(1 << 30), "f": None})
    return {"ops": ops, "rs": rng.randrange(8), "share": rng.random() < 0.5}


def shrink(case):
    if case.get("share"):
        yield dict(copy.deepcopy(case), share=False)
    for i, o in enumerate(case["ops"]):
        for part, keys in (("g", (("endog", None), ("exog", None), ("cm", None), ("em", None), ("list", False))),
                           ("t", (("index", "range"), ("cols", 0), ("own", [False, False]), ("cat", [False] * 3)))):
            if o.get(part):
                for k, v in keys:
                    if o[part][k] != v:
                        c = copy.deepcopy(case)
                        c["ops"][i][part][k] = v
                        yield c


def default_model(P, y):
    mdl = LogisticRegression() if y.dtype == "category" else LinearRegression()
    cats = [c for c in P.columns if P[c].dtype == "category"]
    if cats:
        nums = [c for c in P.columns if c not in cats]
        mdl = Pipeline([("t", ColumnTransformer([("c", OneHotEncoder(sparse_output=False), cats), ("n", "passthrough", nums)])), ("e", mdl)])
    return mdl


class Fit:
    def __init__(self, t, pool=None):
        rs = np.random.RandomState(t["seed"] & 0x7FFFFFFF)
        n = t["n"]
        self.t = t
        self.adj = ["z%d" % i for i in range(t["na"])]
        names = ["c", "e"] + self.adj
        A = sem(rs, n, len(names)) + rs.uniform(-1, 1, len(names))
        X = pd.DataFrame(A, columns=names)
        for k, nm in enumerate(["c", "e"] + self.adj[:1]):
            if t["cat"][k]:
                X[nm] = pd.Categorical((X[nm] > X[nm].median()).astype(int) + (X[nm] > X[nm].quantile(0.8)).astype(int) * (t["seed"] % 2))
        order = list(names)
        random.Random(t["cols"]).shuffle(order)
        X = X[order]
        if t["index"] == "rev":
            X.index = np.arange(n)[::-1] + 4
        elif t["index"] == "dup":
            X.index = rs.randint(0, 6, n)
        elif t["index"] == "str":
            X.index = ["r%d" % i for i in range(n)]
        self.X = X
        self.X0 = X.copy(deep=True)
        self.iscat = {nm: X[nm].dtype == "category" for nm in names}

        def own(cat, shared=None):
            if shared is not None:
                # the caller keeps one estimator object per kind and hands it in again and again
                return shared.setdefault(bool(cat), own(cat))
            if cat:
                return DecisionTreeClassifier(max_depth=2, random_state=0)
            return DecisionTreeRegressor(max_depth=2, random_state=0)
        # one-hot categories are not accepted by a bare tree: own models only without categorical inputs
        okc = self.adj and not any(self.iscat[a] for a in self.adj)
        oke = not any(self.iscat[a] for a in self.adj + ["c"])
        self.mc = own(self.iscat["c"], pool) if t["own"][0] and okc else None
        self.me = own(self.iscat["e"], pool) if t["own"][1] and oke else None
        # reference
        self.rc = None
        if self.adj:
            P = self.X0[self.adj]
            self.rc = own(self.iscat["c"]) if self.mc is not None else default_model(P, X["c"])
            self.rc.fit(P, self.X0["c"])
        P = self.X0[["c"] + self.adj]
        self.re = own(self.iscat["e"]) if self.me is not None else default_model(P, X["e"])
        self.re.fit(P, self.X0["e"])
        self.ec = None if self.iscat["c"] else (self.X0["c"].to_numpy() - (self.rc.predict(self.X0[self.adj]) if self.rc is not None else 0.0))
        self.ee = None if self.iscat["e"] else self.X0["e"].to_numpy() - self.re.predict(P)

    def fit(self, g, **kw):
        adj = self.adj if self.t["adjform"] == "list" else np.array(self.adj)
        a = dict(adjustments=adj if self.adj or self.t["seed"] % 2 else None, model_cause=self.mc, model_effect=self.me)
        a.update(kw)
        return g.fit(self.X, "c", "e", **a)


class Party:
    """an outside model function"""

    def __init__(self, how, bias):
        self.how, self.bias, self.seen, self.out = how, bias, [], None

    def __call__(self, X, err, args):
        self.seen.append((X.copy(deep=True), err.copy(deep=True), args))
        base = np.zeros(len(err)) + self.bias
        if err.dtype != "category" and not np.isnan(np.asarray(err, dtype=float)).any():
            base = base + 2.0 * np.asarray(err, dtype=float)
        for c in X.columns:
            if X[c].dtype != "category":
                base = base + 0.5 * X[c].to_numpy()
        if self.how == "inplace":
            for c in X.columns:
                if X[c].dtype != "category":
                    X[c] = -777.0
            try:
                err.iloc[:] = -888.0
            except Exception:
                pass
        self.out = base
        return base


def cats_of(fit, nm, vals):
    """an outside function for a categorical variable answers with classes"""
    k = fit.X0[nm].cat.categories
    return np.asarray(k)[(np.floor(np.abs(vals)).astype(int)) % len(k)]


def replacements(fit, g):
    rs = np.random.RandomState(g["v"] % (1 << 31))
    n = len(fit.X0)

    def vals(nm, exog):
        if fit.iscat[nm]:
            v = pd.Categorical(rs.choice(np.asarray(fit.X0[nm].cat.categories), n), categories=fit.X0[nm].cat.categories)
            return v
        v = rs.randn(n)
        return v.tolist() if g["list"] else v
    endog, exog = {}, {}
    if g["endog"] in ("cause", "both", "all"):
        endog["c"] = vals("c", False)
    if g["endog"] in ("effect", "both", "all"):
        endog["e"] = vals("e", False)
    if g["endog"] in ("adj", "all"):
        for a in fit.adj:
            endog[a] = vals(a, False)
    if g["exog"] in ("cause", "all") and not fit.iscat["c"]:
        exog["c"] = vals("c", True)
    if g["exog"] in ("effect", "all") and not fit.iscat["e"]:
        exog["e"] = vals("e", True)
    if g["exog"] in ("adj", "all"):
        for a in fit.adj:
            exog[a] = vals(a, True)
    return endog or None, exog or None


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype == object or b.dtype == object or a.dtype.kind in "US" or b.dtype.kind in "US":
        return list(map(str, a)) == list(map(str, b))
    return np.allclose(a.astype(float), b.astype(float), rtol=1e-7, atol=1e-8, equal_nan=True)


def judge(fit, out, endog, exog, cm, em):
    endog, exog = endog or {}, exog or {}
    if not isinstance(out, pd.DataFrame) or list(out.columns) != list(fit.X0.columns):
        return "malformed-output", "columns %s" % list(getattr(out, "columns", []))
    if list(out.index) != list(fit.X0.index):
        return "malformed-output", "%d rows with labels %s.., expected %d" % (len(out), list(out.index)[:4], len(fit.X0))
    n = len(out)
    for a in fit.adj:
        want = endog[a] if a in endog else exog[a] if a in exog else fit.X0[a]
        if not close(out[a], want):
            return "wrong-adjustment", "adjustment %s is not %s" % (a, "the replacement" if a in exog or a in endog else "the data")
    for nm, inputs, ref, err, party in (("c", fit.adj, fit.rc, fit.ec, cm), ("e", ["c"] + fit.adj, fit.re, fit.ee, em)):
        P = out[inputs] if inputs else None
        full = {"c": "cause", "e": "effect"}[nm]
        if nm in endog:
            if party is not None and party.seen:
                return "party-called-needlessly", "the outside %s model was asked although %s is replaced" % (full, full)
            if not close(out[nm], endog[nm]):
                return "replacement-ignored", "%s is not the given replacement" % full
            continue
        e = exog.get(nm, err)
        if party is not None:
            if len(party.seen) != 1:
                return "party-protocol", "outside %s model asked %d times" % (full, len(party.seen))
            PX, PE, args = party.seen[0]
            if args != "args-" + nm:
                return "party-protocol", "outside %s model got arguments %r" % (full, args)
            if list(PX.columns) != inputs or any(not close(PX[c], out[c]) for c in inputs):
                return "party-protocol", "outside %s model did not see the generated inputs" % full
            if e is not None and not close(PE, e):
                return "party-protocol", "outside %s model did not see the %s" % (full, "replaced errors" if nm in exog else "fitted errors")
            if not close(out[nm], party.answer):
                return "replacement-ignored", "%s is not what the outside model answered" % full
            continue
        if not fit.iscat[nm]:
            pred = ref.predict(P) if ref is not None else np.zeros(n)
            want = pred + np.asarray(e, dtype=float)
            if not close(out[nm], want):
                return "equation-violated", "%s is not model(generated inputs) + %s errors (max difference %.3g)" % (
                    full, "replaced" if nm in exog else "fitted", np.abs(np.asarray(out[nm], dtype=float) - want).max())
        elif ref is None:
            if not close(out[nm], fit.X0[nm]):
                return "equation-violated", "%s without adjustments is not the data" % full
        else:
            pr = ref.predict_proba(P)
            cl = list(ref.classes_)
            vals = list(out[nm])
            if any(v not in cl for v in vals):
                return "equation-violated", "%s took a value that is not a class" % full
            k = np.array([cl.index(v) for v in vals])
            if (pr[np.arange(n), k] < 1e-12).any():
                return "equation-violated", "%s took a class its model gives probability 0" % full
            for c in range(len(cl)):
                mu, var = pr[:, c].sum(), (pr[:, c] * (1 - pr[:, c])).sum()
                if abs((k == c).sum() - mu) > 6 * np.sqrt(var) + 3:
                    return "equation-violated", "%s takes class %s %d times, its model expects %.1f" % (full, cl[c], (k == c).sum(), mu)
    return None


class Wrap:
    """party whose answer is turned into classes when the variable is categorical"""

    def __init__(self, party, fit, nm):
        self.party, self.fit, self.nm = party, fit, nm

    def __call__(self, X, err, args):
        v = self.party(X, err, args)
        if self.fit.iscat[self.nm]:
            v = cats_of(self.fit, self.nm, v)
        self.party.answer = np.array(v, copy=True)
        if self.party.how == "keep":
            self.party.held = v
        return v


def run(case, ctx):
    g = CausalDataGenerator(random_state=case["rs"])
    pool = {} if case.get("share") else None
    cur = None
    owned = []
    shape = []
    compared = 0
    for i, o in enumerate(case["ops"]):
        op = o["op"]
        shape.append(op + ("!" if o.get("f") else ""))
        if op == "fit":
            ft = Fit(o["t"], pool)
            keep = fp(ft.X)
            if o["f"]:
                def dryrun():
                    with seams.CallTrace(record=True) as dry:
                        attempt(lambda: Fit(o["t"], pool).fit(CausalDataGenerator(random_state=0)) and None)
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    v = attempt(lambda: (ft.fit(g), None)[1])
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("fit-fails:" + o["f"]["kind"])
            else:
                v = attempt(lambda: (ft.fit(g), None)[1])
                if isinstance(v, Raised):
                    raise Violation("fit-fails", "history %s: a legal fit %s raised %s" % (shape, o["t"], v))
            if fp(ft.X) != keep:
                raise Violation("input-modified", "fit changed the caller's data")
            if not isinstance(v, Raised):
                cur = ft
                owned.append(ft.X)
            ctx.ev(i, op, v)
        elif op == "badfit":
            ft = Fit(o["t"])
            how = o["how"]

            class Boom(LinearRegression):
                def fit(self, *a, **k):
                    raise seams.PARTY[o["exc"]]("estimator fails")
            call = {"cause": lambda: g.fit(ft.X, "nobody", "e", adjustments=ft.adj), "effect": lambda: g.fit(ft.X, "c", "nobody", adjustments=ft.adj),
                    "adj": lambda: g.fit(ft.X, "c", "e", adjustments=["nobody"]),
                    "nan": lambda: g.fit(pd.DataFrame(np.full((9, 2), np.nan), columns=["c", "e"]), "c", "e"),
                    "type": lambda: g.fit(ft.X.to_numpy(), "c", "e"),
                    "model": lambda: g.fit(ft.X, "c", "e", adjustments=ft.adj, model_effect=LinearRegression() if ft.iscat["e"] else LogisticRegression()),
                    "raise": lambda: g.fit(ft.X, "c", "e", adjustments=ft.adj, model_effect=None if ft.iscat["e"] else Boom(),
                                           model_cause=None)}[how]
            if how == "raise" and ft.iscat["e"]:
                continue
            v = attempt(lambda: (call(), None)[1])
            if not isinstance(v, Raised):
                raise Violation("bad-fit-accepted", "fit with wrong %s was accepted" % how)
            ctx.fault("fit-rejected:" + how)
            ctx.ev(i, op, how, v)
        elif op == "badgen":
            if cur is None:
                continue
            n = len(cur.X0)
            how = o["how"]

            def boom(*a):
                raise seams.PARTY[o["exc"]]("outside model fails")
            kw = {"name": {"interv_exog": {"nobody": np.zeros(n)}}, "length": {"interv_endog": {"c": np.zeros(n + 1)}},
                  "type": {"interv_exog": [1, 2]}, "callable": {"effect_model": 3}, "raise-cause": {"cause_model": boom},
                  "raise-effect": {"effect_model": boom}}[how]
            v = attempt(lambda: g.generate(**kw))
            if not isinstance(v, Raised):
                raise Violation("bad-generation-accepted", "generation with wrong %s returned data" % how)
            if how.startswith("raise") and o["exc"] != "interrupt" and v.type != "RuntimeError":
                raise Violation("party-failure-misreported", "a failing outside model surfaced as %s" % v)
            ctx.fault("generation-rejected:" + how)
            ctx.ev(i, op, how, v)
        elif op == "scribble":
            for x in owned:
                scribble(x)
            owned = []
            ctx.fault("caller-overwrites-its-data")
            ctx.ev(i, op)
        else:
            if cur is None:
                continue
            q = o["g"]
            endog, exog = replacements(cur, q)
            keep = (fp(endog), fp(exog))
            cm = Party(q["cm"], 0.25) if q["cm"] else None
            em = Party(q["em"], -0.5) if q["em"] else None

            def go():
                return g.generate(interv_endog=endog, interv_exog=exog, cause_model=cm and Wrap(cm, cur, "c"), cause_model_args="args-c",
                                  effect_model=em and Wrap(em, cur, "e"), effect_model_args="args-e")
            if o["f"]:
                def dryrun():
                    with seams.CallTrace(record=True) as dry:
                        attempt(go)
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    attempt(go)
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("generation-fails:" + o["f"]["kind"])
                ctx.ev(i, "gen!", tr.fired)
                continue
            seams.set_rng(o["s"])
            hold = {}

            def call():
                hold["v"] = go()
                return hold["v"]
            with seams.CallTrace() as tr:
                v = attempt(call)
            ctx.steps += tr.n
            what = {k: q[k] for k in ("endog", "exog", "cm", "em")}
            if isinstance(v, Raised):
                raise Violation("generation-fails", "history %s: a legal generation %s of fit %s raised %s" % (shape, what, cur.t, v))
            if (fp(endog), fp(exog)) != keep:
                raise Violation("input-modified", "generation changed the caller's replacement values")
            bad = judge(cur, hold["v"], endog, exog, cm, em)
            if bad:
                raise Violation(bad[0], "history %s, fit %s, generation %s: %s" % (shape, cur.t, what, bad[1]))
            owned.append(hold["v"])
            compared += 1
            ctx.count("generations compared")
            ctx.states.add("%s|%d|%s|%s|%s|%s|%s|%d" % (sorted(k for k in cur.iscat if cur.iscat[k]), len(cur.adj), cur.t["index"], q["endog"], q["exog"], q["cm"], q["em"], len(shape)))
            ctx.ev(i, "gen", digest(v))
    ctx.nontrivial = compared >= 1 and len(shape) >= 2
