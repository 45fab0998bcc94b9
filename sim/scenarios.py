"""Catalogue of user operations.  Each scenario builds caller-owned inputs and a thunk using
only the public API; `go()` returns the raw output, `inputs` the objects the caller owns."""
import contextlib
import io
import random

import numpy as np
import pandas as pd

import lingam
from lingam import BootstrapResult, CausalBasedSimulator, CausalEffect, DirectLiNGAM, ICALiNGAM
from lingam import utils as U
from lingam.hsic import hsic_test_gamma
from lingam.tools import bootstrap_with_imputation
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.tree import DecisionTreeRegressor

from .core import freeze
from .models import FORMS, MODELS, as_form, data, sem

S = {}


class Env:
    def __init__(self, inputs, go, subject=None, peek=None):
        self.inputs, self.go, self.subject = inputs, go, subject
        self.peek = peek    # () -> frozen view of what the subject exposes afterwards


def scenario(name, cost=1.0, rng=False):
    def deco(cls):
        o = cls()
        o.name, o.cost, o.uses_rng = name, cost, rng
        S[name] = o
        return cls
    return deco


def rs_of(spec):
    return np.random.RandomState(spec["seed"] & 0x7FFFFFFF)


def dag(rs, p, nan=False, dens=0.6):
    order = rs.permutation(p)
    B = np.zeros((p, p))
    for a in range(p):
        for b in range(a):
            if rs.rand() < dens:
                B[order[a], order[b]] = rs.choice([-1, 1]) * rs.uniform(0.3, 1.5)
    if nan and p > 1:
        i, j = rs.choice(p, 2, replace=False)
        B[i, j] = B[j, i] = np.nan
    return B


# ------------------------------------------------------------------ estimators
class FitOp:
    def __init__(self, m):
        self.m = m

    def gen(self, rng):
        cfg = self.m.config(rng)
        return {"cfg": cfg, "d": self.m.dspec(rng, cfg), "q": rng.randrange(1 << 20)}

    def build(self, spec, args=None):
        m, cfg, d = self.m, spec["cfg"], spec["d"]
        m.given = None
        est = m.make(cfg)
        given = dict(m.given or {})
        args = m.args(cfg, d) if args is None else args
        inputs = {"arg%d" % i: a for i, a in enumerate(args)}
        inputs.update(given)

        def go():
            m.fit(est, args)
            out = m.snap(est)
            qs = m.queries(est, args, d)
            for k in range(min(2, len(qs))):
                lbl, fn = qs[(spec["q"] + 7 * k) % len(qs)]
                out[lbl] = freeze(fn())
            return out
        return Env(inputs, go, est, lambda: m.snap(est))


class BootOp(FitOp):
    def gen(self, rng):
        s = super().gen(rng)
        s["n"] = rng.choice([1, 2, 2, 3])
        return s

    def build(self, spec, args=None):
        m, cfg, d = self.m, spec["cfg"], spec["d"]
        m.given = None
        est = m.make(cfg)
        args = m.args(cfg, d) if args is None else args
        inputs = {"arg%d" % i: a for i, a in enumerate(args)}
        inputs.update(m.given or {})
        hold = {}

        def go():
            hold["r"] = m.boot(est, args, spec["n"], cfg)
            return m.boot_snap(hold["r"])
        return Env(inputs, go, est, lambda: m.boot_snap(hold["r"]) if "r" in hold else {})


for _m in MODELS.values():
    f = FitOp(_m)
    f.name, f.cost, f.uses_rng = "Fit:" + _m.name, _m.cost, _m.uses_rng
    S[f.name] = f
    if _m.has_boot:
        b = BootOp(_m)
        b.name, b.cost, b.uses_rng = "Boot:" + _m.name, _m.cost * 2, True
        S[b.name] = b


# ------------------------------------------------------------------ functions
class Fn:
    def gen(self, rng):
        return {"seed": rng.randrange(1 << 30), "p": rng.randint(2, 4), "n": rng.randint(30, 70),
                "form": rng.choice(FORMS), "v": rng.randrange(1 << 20)}

    def build(self, spec):
        rs = rs_of(spec)
        inputs, go = self.make(spec, rs, random.Random(spec["v"]))
        return Env(inputs, go)


@scenario("remove_effect")
class _(Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, s["n"], s["p"]), s["form"])
        rem = [r.randrange(s["p"])]
        rc = r.random() < 0.5
        return {"X": X, "rem": rem}, lambda: U.remove_effect(X, rem, return_coefs=rc)


@scenario("predict_adaptive_lasso")
class _(Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, s["n"], s["p"]), "nd" if s["form"].startswith("df") else s["form"])
        t = r.randrange(s["p"])
        pred = [i for i in range(s["p"]) if i != t]
        return {"X": X, "pred": pred}, lambda: U.predict_adaptive_lasso(X, pred, t)


@scenario("find_all_paths")
class _(Fn):
    def make(self, s, rs, r):
        B = dag(rs, s["p"] + 2, nan=r.random() < 0.3, dens=0.8)
        i, j = r.sample(range(len(B)), 2)
        low = r.choice([0.0, 0.4])
        return {"B": B}, lambda: U.find_all_paths(B, i, j, low)


@scenario("calculate_total_effect")
class _(Fn):
    def make(self, s, rs, r):
        B = dag(rs, s["p"] + 1, nan=r.random() < 0.3, dens=0.8)
        i, j = r.sample(range(len(B)), 2)
        isc = [True] * len(B)
        return {"B": B, "isc": isc}, lambda: U.calculate_total_effect(B, i, j, isc)


@scenario("evaluate_model_fit", cost=8)
class _(Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, 60, 3), s["form"])
        B = dag(rs, 3)      # (semopy's search with latent variables may take minutes)
        isord = r.choice([[0, 0, 0], [0, 0, 0], None])
        return {"X": X, "B": B, "o": isord}, lambda: U.evaluate_model_fit(B, X, isord).round(6)


@scenario("make_prior_knowledge")
class _(Fn):
    def make(self, s, rs, r):
        p = s["p"] + 2
        ex, si = [0], [p - 1]
        pa, no = [[1, 2]], [[2, 1], (2, 0)]
        return ({"ex": ex, "si": si, "pa": pa, "no": no},
                lambda: U.make_prior_knowledge(p, exogenous_variables=ex, sink_variables=si, paths=pa, no_paths=no))


@scenario("sink_exo_distance")
class _(Fn):
    def make(self, s, rs, r):
        B = dag(rs, s["p"] + 1, nan=r.random() < 0.3)
        far = r.choice([None, 1, 2])
        return {"B": B}, lambda: (U.get_sink_variables(B), U.get_exo_variables(B),
                                  sorted((int(k), sorted(map(int, v))) for k, v in
                                         U.calculate_distance_from_root_nodes(B, max_distance=far).items()))


@scenario("make_dot")
class _(Fn):
    def make(self, s, rs, r):
        p = s["p"] + 1
        B = dag(rs, p, nan=r.random() < 0.4)
        labels = ["n%d" % i for i in range(p)] if r.random() < 0.6 else None
        pf, pc, pi = [0, 1], [0.5, -0.7], [0.25, 0.75]
        path = tuple(r.sample(range(p), 2)) if r.random() < 0.5 else None
        if r.random() < 0.3:
            i, j = r.sample(range(p), 2)
            B[i, j], B[j, i] = 0.4, 0.6         # a cycle
        kw = r.choice([{"prediction_coefs": pc}, {"prediction_feature_importance": pi}, {}])
        cyc, low, shape = r.random() < 0.5, r.choice([0.01, 0.5]), r.random() < 0.5
        return ({"B": B, "labels": labels, "pf": pf, "pc": pc, "pi": pi},
                lambda: U.make_dot(B, labels=labels, prediction_feature_indices=pf, path=path, lower_limit=low,
                                   detect_cycle=cyc, ignore_shape=shape, **kw).source)


@scenario("make_dot_highlight")
class _(Fn):
    def make(self, s, rs, r):
        p = s["p"] + 1
        B = dag(rs, p)
        labels = ["n%d" % i for i in range(p)] if r.random() < 0.6 else None
        if r.random() < 0.3:
            i, j = r.sample(range(p), 2)
            B[i, j], B[j, i] = 0.4, 0.6         # a cycle
        node = r.randrange(p)
        kw = {"lower_limit": r.choice([None, 0.5]), "max_dsc": r.choice([None, 1, 0]), "max_anc": r.choice([None, 1, 0]),
              "cmap": r.choice([None, "cool"]), "draw_others": r.random() < 0.7, "detect_cycle": r.random() < 0.5,
              "path": tuple(r.sample(range(p), 2)) if r.random() < 0.4 else None}
        return {"B": B, "labels": labels}, lambda: U.make_dot_highlight(B, node, labels=labels, **kw).source


@scenario("hsic_fcorr")
class _(Fn):
    def make(self, s, rs, r):
        X = sem(rs, s["n"], 2)
        x, y = X[:, [0]].copy(), X[:, [1]].copy()
        x1, y1 = X[:, 0].copy(), X[:, 1].copy()
        bw = r.choice(["mdbs", "scott", "silverman"])
        if r.random() < 0.4:
            bw = "mdbs"
            Z = sem(rs, s["n"], 5)
            x, y = np.array(Z[:, :r.choice([1, 2, 3])], order=r.choice("CF")), np.array(Z[:, 3:], order=r.choice("CF"))
        return ({"x": x, "y": y, "x1": x1, "y1": y1},
                lambda: (hsic_test_gamma(x, y, bw_method=bw), round(float(U.f_correlation(x1, y1)), 6)))


@scenario("likelihood")
class _(Fn):
    def make(self, s, rs, r):
        X = sem(rs, s["n"], s["p"]).T.copy()
        b = rs.randn(s["p"])
        i = r.randrange(s["p"])
        b[i] = 0
        return {"X": X, "b": b}, lambda: (U.likelihood_i(X, i, b, 0.1), U.variance_i(X, i, b), U.log_p_super_gaussian(X[i]))


@scenario("extract_ancestors", cost=2)
class _(Fn):
    def make(self, s, rs, r):
        X = as_form(sem(rs, s["n"], 3), s["form"])
        kw = {"cor_alpha": r.choice([0.01, 0.1]), "ind_alpha": r.choice([0.01, 0.1]), "bw_method": r.choice(["mdbs", "scott", "silverman"]),
              "shapiro_alpha": r.choice([0.01, 1.0, 1.0, 1.0]), "MLHSICR": r.random() < 0.2}
        return {"X": X, "kw": kw}, lambda: [sorted(map(int, a)) for a in U.extract_ancestors(X, max_explanatory_num=2, **kw)]


def summaries(res, p, r, kinds=6):
    out = []
    for _ in range(kinds):
        k = r.randrange(5)
        mce = r.choice([None, 0.01, 0.5])
        if k == 0:
            out.append(res.get_causal_direction_counts(n_directions=r.choice([None, 2]), min_causal_effect=mce,
                                                       split_by_causal_effect_sign=r.random() < 0.5))
        elif k == 1:
            out.append(res.get_directed_acyclic_graph_counts(n_dags=r.choice([None, 1]), min_causal_effect=mce,
                                                             split_by_causal_effect_sign=r.random() < 0.5))
        elif k == 2:
            out.append(res.get_probabilities(min_causal_effect=mce))
        elif k == 3:
            out.append(res.get_total_causal_effects(min_causal_effect=mce))
        else:
            i, j = r.sample(range(p), 2)
            out.append(res.get_paths(i, j, min_causal_effect=mce))
    return out


def ledger(rs, p, n, nan=False, dens=0.6):
    pool = [dag(rs, p, nan=nan and rs.rand() < 0.5, dens=dens) for _ in range(3)]
    ams, tes = [], []
    for _ in range(n):
        B = pool[rs.randint(3)].copy()
        nz = np.nonzero(np.nan_to_num(B))
        B[nz] = B[nz] * rs.uniform(0.3, 1.5, len(nz[0]))
        ams.append(B)
        tes.append(np.linalg.inv(np.eye(p) - np.nan_to_num(B)) - np.eye(p))
    return np.array(ams), np.array(tes)


@scenario("BootstrapResult")
class _(Fn):
    def make(self, s, rs, r):
        ams, tes = ledger(rs, s["p"], r.randint(1, 6), nan=r.random() < 0.3)
        idx = [np.arange(5) for _ in ams]
        res = BootstrapResult(ams, tes, idx)
        seed = s["v"]
        return {"ams": ams, "tes": tes, "idx": idx}, lambda: summaries(res, s["p"], random.Random(seed))


@scenario("print_results")
class _(Fn):
    def make(self, s, rs, r):
        ams, tes = ledger(rs, s["p"], 4)
        sp = r.random() < 0.5
        res = BootstrapResult(ams, tes)
        cdc = res.get_causal_direction_counts(split_by_causal_effect_sign=sp)
        dagc = res.get_directed_acyclic_graph_counts(split_by_causal_effect_sign=sp)
        labels = ["v%d" % i for i in range(s["p"])]

        def go():
            # not redirect_stdout: that would swap a process-global under other threads
            U.print_causal_directions(cdc, 4, labels=labels)
            U.print_dagc(dagc, 4, labels=labels)
            return "printed"
        return {"cdc": cdc, "dagc": dagc, "labels": labels}, go


class Pred(LinearRegression):
    """a caller's prediction model"""


@scenario("CausalEffect", rng=True)
class _(Fn):
    def make(self, s, rs, r):
        p = s["p"] + 1
        B = dag(rs, p, dens=0.8)
        X = sem(rs, s["n"], p, B=B)
        t = r.randrange(p)
        rest = [i for i in range(p) if i != t]
        reg = Pred().fit(X[:, rest], X[:, t])
        logit = LogisticRegression().fit(X[:, rest], X[:, t] > np.median(X[:, t]))
        X = as_form(X, s["form"])
        how = r.randrange(3)
        Bc = B if how == 0 else B.tolist()
        if how == 2:
            ce = CausalEffect(DirectLiNGAM().fit(X))
        else:
            ce = CausalEffect(Bc)
        i = r.choice(rest)
        d = r.uniform(-2, 2)
        kind = r.randrange(3)

        def go():
            if kind == 0:
                return ce.estimate_effects_on_prediction(X, t, reg)
            if kind == 1:
                return ce.estimate_effects_on_prediction(X, t, logit)
            return ce.estimate_optimal_intervention(X, t, reg, i, d)
        return {"B": Bc, "X": X, "coef": reg.coef_}, go


@scenario("CausalBasedSimulator", rng=True)
class _(Fn):
    def make(self, s, rs, r):
        p = s["p"] + 1
        B = dag(rs, p)
        n = s["n"]
        X = sem(rs, n, p, B=B)
        isd = None
        if r.random() < 0.3:
            k = r.randrange(p)
            X[:, k] = (X[:, k] > 0).astype(float)
            isd = [i == k for i in range(p)]
        Xf = as_form(X, s["form"])
        names = list(Xf.columns) if hasattr(Xf, "columns") else [str(i) for i in range(p)]
        cont = [nm for i, nm in enumerate(names) if not (isd and isd[i])]
        exog = {r.choice(cont): rs.randn(n)} if r.random() < 0.6 else None
        models = {c: DecisionTreeRegressor(max_depth=2, random_state=0) for c in cont if r.random() < 0.3} or None
        ch = None
        if r.random() < 0.5:
            tgt = r.choice(cont)
            ch = {tgt: {"parent_names": [], "coef": []}}
        sh = r.random() < 0.5
        seed = r.choice([None, 3])
        algo = r.choice(["DirectLiNGAM", "ICALiNGAM", None])

        def go():
            cs = CausalBasedSimulator()
            cs.train(Xf, B, cd_algo_name=algo, models=models, is_discrete=isd)
            return cs.run(changing_exog=exog, changing_models=ch, shuffle_residual=sh, random_state=seed)
        return {"X": Xf, "B": B, "exog": exog, "ch": ch, "isd": isd, "models": models and list(models)}, go


@scenario("CausalBasedSimulator:VAR", rng=True)
class _(Fn):
    def make(self, s, rs, r):
        from .models import var_series
        X = as_form(var_series(rs, s["n"], 2), s["form"])
        G = np.zeros((2, 2, 2))
        G[0, 1, 0] = 0.5
        G[1] = rs.uniform(0.1, 0.4, (2, 2))
        sh = r.random() < 0.5

        def go():
            cs = CausalBasedSimulator()
            cs.train(X, G, cd_algo_name="VARLiNGAM")
            return cs.run(shuffle_residual=sh)
        return {"X": X, "G": G}, go


@scenario("bootstrap_with_imputation", cost=6, rng=True)
class _(Fn):
    def make(self, s, rs, r):
        X = sem(rs, 40, 3)
        X[rs.rand(*X.shape) < 0.08] = np.nan
        X[0] = rs.randn(3)
        X = as_form(X, s["form"])
        pk = -np.ones((3, 3), dtype=int) if r.random() < 0.4 else None
        seed = r.choice([None, 5])
        return {"X": X, "pk": pk}, lambda: bootstrap_with_imputation(X, 1, n_repeats=2, prior_knowledge=pk, random_state=seed)


@scenario("CausalDataGenerator", rng=True)
class _(Fn):
    def make(self, s, rs, r):
        from lingam.experimental import CausalDataGenerator
        X = pd.DataFrame(sem(rs, s["n"], 3), columns=["a", "b", "c"])
        cat = r.random() < 0.4
        if cat:
            X["b"] = pd.Categorical((X["b"] > 0).astype(int))
        adj = ["c"]
        endog = {"a": rs.randn(s["n"])} if r.random() < 0.5 else None
        exog = {"c": rs.randn(s["n"])} if r.random() < 0.5 else None
        seed = r.choice([None, 4])

        def go():
            g = CausalDataGenerator(random_state=seed)
            g.fit(X, "a", "b", adjustments=adj)
            return g.generate(interv_endog=endog, interv_exog=exog)
        return {"X": X, "adj": adj, "endog": endog, "exog": exog}, go


@scenario("OutOfSampleCausalTuning", cost=40, rng=True)
class _(Fn):
    def make(self, s, rs, r):
        from lingam.experimental import OutOfSampleCausalTuning
        X = as_form(sem(rs, 30, 2), s["form"])
        kw = {"measure": "pwling"}
        cfgs = [{"model": DirectLiNGAM, "init_kwargs": kw}, {"all_others": True}]
        seed = r.choice([None, 2])

        def go():
            o = OutOfSampleCausalTuning(cv=2, sparsity_penalty=False, random_state=seed)
            o.fit(X, cfgs)
            return (int(o.best_config_index_), o.scores_)
        return {"X": X, "kw": kw, "cfgs": cfgs}, go


@scenario("visualize", cost=8)
class _(Fn):
    def make(self, s, rs, r):
        from matplotlib.figure import Figure
        X = pd.DataFrame(sem(rs, 40, 3), columns=["a", "b", "c"])
        B = np.array([[0, 0, r.choice([0.0, 1.0])], [0.7, 0, 0.2], [0.3, 0, 0.0]])
        pos = r.choice([[-0.5, 0.0, 0.5], None])
        per = r.choice([None, [90, 50, 10]])
        mats = np.array([B, B * (rs.rand(3, 3) < 0.7), B])
        idx = [rs.randint(0, 40, 40) for _ in range(3)]
        cd = BootstrapResult(mats, np.zeros((3, 3, 3)), idx) if r.random() < 0.5 else B
        est = DecisionTreeRegressor(max_depth=3, random_state=0)
        if r.random() < 0.3:
            X["b"] = pd.Categorical(np.where(X["b"] > X["b"].median(), "hi", "lo"))
            est = LogisticRegression()
        box = r.random() < 0.2

        def go():
            f = U.visualize_nonlinear_causal_effect(X, cd, est, "a", "b", cause_positions=pos, percentile=per, fig=Figure(), boxplot=box)
            return [(ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), [np.round(np.asarray(ln.get_xydata(), dtype=float), 9) for ln in ax.lines])
                    for ax in f.axes]
        return {"X": X, "B": B, "pos": pos, "per": per, "mats": mats, "idx": idx}, go


NAMES = sorted(S)
SLOW = ["OutOfSampleCausalTuning"]
CHEAP = [n for n in NAMES if n not in SLOW]
