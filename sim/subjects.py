"""Objects a user keeps and asks questions of: build one, list its read-only questions."""
import random

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.tree import DecisionTreeRegressor

from lingam import BootstrapResult, CausalBasedSimulator, CausalEffect, DirectLiNGAM
from lingam.longitudinal_lingam import LongitudinalBootstrapResult
from lingam.var_lingam import VARBootstrapResult
from lingam.varma_lingam import VARMABootstrapResult

from . import seams
from .core import attempt, freeze
from .models import MODELS, as_form, sem, var_series
from .scenarios import dag, ledger


class Subject:
    def __init__(self, obj, queries, view, ask=None):
        self.obj, self.queries, self.view = obj, queries, view


EST = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
       "RCD", "MultiGroupRCD", "VARLiNGAM", "LongitudinalLiNGAM"]
RESULTS = ["BootstrapResult", "VARBootstrapResult", "VARMABootstrapResult", "LongitudinalBootstrapResult"]
OTHERS = ["CausalEffect", "CausalBasedSimulator", "CausalBasedSimulator:VAR", "CausalDataGenerator"]
KINDS = ["est:" + n for n in EST] + ["est:VARMALiNGAM"] + RESULTS + OTHERS + ["boot:DirectLiNGAM", "boot:VARLiNGAM",
                                                                            "boot:LongitudinalLiNGAM"]


def gen(kind, rng):
    if kind.startswith(("est:", "boot:")):
        m = MODELS[kind.split(":")[1]]
        cfg = m.config(rng)
        if kind == "est:VARMALiNGAM":
            cfg.update(ar=rng.randrange(1 << 30), p=2, prune=False, crit=None)
        return {"cfg": cfg, "d": m.dspec(rng, cfg), "s": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3])}
    n = rng.choice([1, 2, 3, 4, 6, 9])
    p = rng.choice([2, 3, 3, 4])
    chain = False
    if kind == "BootstrapResult" and rng.random() < 0.12:
        p, chain = rng.choice([11, 11, 14]), rng.random() < 0.4
    if rng.random() < 0.04:      # more draws than any small counter holds
        p, n, chain = 2, rng.choice([130, 260, 300]), False
    return {"seed": rng.randrange(1 << 30), "p": p, "n": n, "chain": chain,
            "lags": rng.choice([1, 1, 2]), "T": rng.choice([2, 3, 4]), "nan": rng.random() < 0.3, "rows": rng.randint(25, 50)}


def chains(rs, p, n):
    """draws dominated by one long chain through all variables, with a few shortcuts: long paths that share long stems"""
    order = rs.permutation(p)
    ams, tes = [], []
    for _ in range(n):
        B = np.zeros((p, p))
        for a in range(1, p):
            B[order[a], order[a - 1]] = rs.choice([-1, 1]) * rs.uniform(0.6, 1.4)
        for a in range(2, p):
            if rs.rand() < 0.3:
                B[order[a], order[rs.randint(a - 1)]] = rs.uniform(0.3, 1.2)
        ams.append(B)
        tes.append(np.linalg.inv(np.eye(p) - B) - np.eye(p))
    return np.array(ams), np.array(tes)


def make_ledger(kind, spec):
    """(adjacency matrices, total effects, extra ctor args)"""
    rs = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
    p, n = spec["p"], spec["n"]
    if kind == "BootstrapResult":
        if spec.get("chain"):
            return chains(rs, p, n)
        return ledger(rs, p, n, nan=spec["nan"], dens=0.25 if p > 6 else rs.choice([0.0, 0.6, 0.6, 0.6, 0.9]))
    L = spec["lags"]
    if kind in ("VARBootstrapResult", "VARMABootstrapResult"):
        p = min(p, 3)
        q = 1 if kind == "VARMABootstrapResult" else 0
        pool = []
        for _ in range(3):
            A = np.hstack([dag(rs, p)] + [rs.uniform(-0.9, 0.9, (p, p)) * (rs.rand(p, p) < 0.4) for _ in range(L + q)])
            pool.append(A)
        ams = []
        for _ in range(n):
            A = pool[rs.randint(3)].copy()
            A[A != 0] *= rs.uniform(0.4, 1.6, int((A != 0).sum()))
            ams.append(A)
        tes = [np.round(A[:, :p * (L + 1)] * rs.uniform(0.5, 1.5), 6) for A in ams]
        return np.array(ams), np.array(tes)
    T = spec["T"]
    p = min(p, 3)
    L = min(L, T - 1)
    ams = []
    masks = [[(dag(rs, p) != 0) for _ in range(T)] for _ in range(2)]
    for _ in range(n):
        A = np.full((T, 1 + L, p, p), np.nan)
        mk = masks[rs.randint(2)]
        for t in range(T):
            if t >= L or rs.rand() < 0.3:
                A[t, 0] = mk[t] * rs.uniform(0.2, 1.4, (p, p)) * rs.choice([-1, 1], (p, p))
                for k in range(1, L + 1):
                    A[t, k] = rs.uniform(-0.9, 0.9, (p, p)) * (rs.rand(p, p) < 0.5)
        ams.append(A)
    tes = rs.uniform(-1, 1, (n, T * p, T * p)) * (rs.rand(n, T * p, T * p) < 0.3)
    return np.array(ams), np.round(tes, 6)


def result_object(kind, spec):
    ams, tes = make_ledger(kind, spec)
    if kind == "BootstrapResult":
        return BootstrapResult(ams, tes), ams, tes
    if kind == "VARBootstrapResult":
        return VARBootstrapResult(ams, tes), ams, tes
    if kind == "VARMABootstrapResult":
        return VARMABootstrapResult(ams, tes, (spec["lags"], 1)), ams, tes
    return LongitudinalBootstrapResult(len(ams[0]), ams, tes), ams, tes


def result_queries(kind, res, p, lags=1, T=None):
    qs = []
    for mce in (None, 0.01, 0.5, 0.9, 40.0):
        for split in (False, True):
            for top in (None, 1, 2, 50):
                kw = dict(min_causal_effect=mce, split_by_causal_effect_sign=split)
                qs.append((("cdc", mce, split, top), lambda kw=kw, top=top: res.get_causal_direction_counts(n_directions=top, **kw)))
                qs.append((("dagc", mce, split, top), lambda kw=kw, top=top: res.get_directed_acyclic_graph_counts(n_dags=top, **kw)))
        for _ in range(3):
            qs.append((("prob", mce), lambda mce=mce: res.get_probabilities(min_causal_effect=mce)))
            qs.append((("te", mce), lambda mce=mce: res.get_total_causal_effects(min_causal_effect=mce)))
        for i in range(p):
            for j in range(p):
                if kind == "BootstrapResult":
                    if i != j:
                        qs.append((("paths", i, j, mce), lambda i=i, j=j, mce=mce: res.get_paths(i, j, min_causal_effect=mce)))
                elif kind == "LongitudinalBootstrapResult":
                    for a in range(T):
                        for b in range(a, T):
                            if a != b or i != j:
                                qs.append((("paths", i, j, a, b, mce), lambda i=i, j=j, a=a, b=b, mce=mce:
                                           res.get_paths(i, j, a, b, min_causal_effect=mce)))
                else:
                    for a in range(lags + 1):
                        for b in range(a + 1):
                            if a != b or i != j:
                                qs.append((("paths", i, j, a, b, mce), lambda i=i, j=j, a=a, b=b, mce=mce:
                                           res.get_paths(i, j, a, b, min_causal_effect=mce)))
    return qs


def result_view(res):
    return {a: freeze(getattr(res, a)) for a in ("adjacency_matrices_", "total_effects_", "resampled_indices_") if hasattr(res, a)}


def buffered(queries, buf, contents):
    """The same questions asked with one set of arrays that the caller refills (label 'buf:'; not for several threads)."""
    from .checks.common import refill
    if not all(a is b for a, b in zip(refill(buf, contents[0]), buf)):
        return []
    out = []
    for k, new in enumerate(contents):
        for l, f in queries(buf):
            def ask(f=f, new=new):
                refill(buf, new)
                return f()
            out.append(("buf:%d:%s" % (k, l), ask))
    return out


def build(kind, spec):
    if kind.startswith(("est:", "boot:")):
        what, name = kind.split(":")
        m = MODELS[name]
        cfg, d = spec["cfg"], spec["d"]
        est = m.make(cfg)
        args = m.args(cfg, d)
        seams.set_rng(spec["s"])
        if what == "est":
            m.fit(est, args)
            d2 = dict(d, seed=d["seed"] ^ 0x5A5A)
            other = m.queries(est, m.args(cfg, d2), d2)   # the same questions about other data of the same shape
            qs = m.queries(est, args, d) + [("other:" + l, f) for l, f in other]
            return Subject(est, qs + buffered(lambda a: m.queries(est, a, d), m.args(cfg, d), [m.args(cfg, d), m.args(cfg, d2)]), lambda: m.snap(est))
        res = m.boot(est, args, spec["n"], cfg)
        k = {"DirectLiNGAM": "BootstrapResult", "VARLiNGAM": "VARBootstrapResult",
             "LongitudinalLiNGAM": "LongitudinalBootstrapResult"}[name]
        return Subject(res, [(str(l), f) for l, f in result_queries(k, res, d["p"], 1, d.get("k"))], lambda: result_view(res))
    if kind in RESULTS:
        res, ams, tes = result_object(kind, spec)
        p = ams.shape[-1] if kind in ("BootstrapResult", "LongitudinalBootstrapResult") else ams.shape[1]
        qs = result_queries(kind, res, p, spec["lags"], ams.shape[1] if kind.startswith("Long") else None)
        return Subject(res, [(str(l), f) for l, f in qs], lambda: result_view(res))
    rs = np.random.RandomState(spec["seed"] & 0x7FFFFFFF)
    r = random.Random(spec["seed"])
    p, n = spec["p"] + 1, spec["rows"]
    if kind == "CausalEffect":
        B = dag(rs, p, dens=0.8)
        X = sem(rs, n, p, B=B)
        how = r.randrange(3)
        ce = CausalEffect(B if how == 0 else B.tolist() if how == 1 else DirectLiNGAM().fit(X))
        preds = []
        for t in range(p):
            rest = [i for i in range(p) if i != t]
            preds.append((t, rest, LinearRegression().fit(X[:, rest], X[:, t]),
                          LogisticRegression().fit(X[:, rest], X[:, t] > np.median(X[:, t]))))

        def questions(a):
            X, = a
            qs = []
            for t, rest, reg, logit in preds:
                qs.append(("lin%d" % t, lambda t=t, reg=reg: ce.estimate_effects_on_prediction(X, t, reg)))
                qs.append(("log%d" % t, lambda t=t, logit=logit: ce.estimate_effects_on_prediction(X, t, logit)))
                for i in rest:
                    qs.append(("opt%d,%d" % (t, i), lambda t=t, reg=reg, i=i: ce.estimate_optimal_intervention(X, t, reg, i, 1.5)))
            return qs
        return Subject(ce, questions((X,)) + buffered(questions, (X.copy(),), [(X.copy(),), (sem(rs, n, p, B=B) + 1,)]), lambda: None)
    if kind.startswith("CausalBasedSimulator"):
        if kind.endswith("VAR"):
            X = var_series(rs, n, 2)
            G = np.zeros((2, 2, 2))
            G[0, 1, 0] = 0.5
            G[1] = rs.uniform(0.1, 0.4, (2, 2))
            cs = CausalBasedSimulator()
            cs.train(X, G, cd_algo_name="VARLiNGAM")
            names = ["0", "1"]
            exo = {"1[t]": rs.randn(n - 1)}
            ch = {}
        else:
            B = dag(rs, p)
            X = sem(rs, n, p, B=B)
            cs = CausalBasedSimulator()
            isd = None
            sinks = [i for i in range(p) if not B[:, i].any() and B[i].any()]
            if sinks and r.random() < 0.3:
                k = sinks[0]
                X[:, k] = (X[:, k] > np.median(X[:, k])).astype(float)
                isd = [i == k for i in range(p)]
            cs.train(X, B, models={"0": DecisionTreeRegressor(max_depth=3, random_state=0)} if r.random() < 0.5 and not (isd and isd[0]) else None,
                     is_discrete=isd)
            names = [str(i) for i in range(p)]
            cont = [nm for i, nm in enumerate(names) if not (isd and isd[i])]
            exo = {cont[-1]: rs.randn(n)}
            ch = {c: {"parent_names": []} for c in cont[:1]}
        qs = []
        for e in (None, exo):
            for sh in (False, True):
                for seed in (0, 1):
                    qs.append(("run(exog=%s,shuffle=%s,%d)" % (e is not None, sh, seed),
                               lambda e=e, sh=sh, seed=seed: cs.run(changing_exog=e, shuffle_residual=sh, random_state=seed)))
        if ch:
            qs.append(("run(models)", lambda: cs.run(changing_models=ch, random_state=3)))
            qs.append(("run(models,shuffle)", lambda: cs.run(changing_models=ch, shuffle_residual=True, random_state=3)))

        def view():
            return {k: {a: freeze(v[a]) for a in ("parent_names", "predicted", "residual")} for k, v in cs.train_result_.items()}
        return Subject(cs, qs, lambda: freeze(view()))
    from lingam.experimental import CausalDataGenerator
    X = pd.DataFrame(sem(rs, n, 3), columns=["a", "b", "c"])
    g = CausalDataGenerator(random_state=r.choice([0, 1]))
    g.fit(X, "a", "b", adjustments=["c"])
    e1, e2 = {"a": rs.randn(n)}, {"c": rs.randn(n)}
    return Subject(g, [("gen", lambda: g.generate()), ("gen-endog", lambda: g.generate(interv_endog=e1)),
                       ("gen-exog", lambda: g.generate(interv_exog=e2)),
                       ("gen-both", lambda: g.generate(interv_endog=e1, interv_exog=e2))], lambda: None)
