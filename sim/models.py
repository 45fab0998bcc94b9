"""Adapters: how to construct, feed and observe each estimator through its public API."""
import numpy as np
import pandas as pd

import lingam
from lingam import (BottomUpParceLiNGAM, CAMUV, DirectLiNGAM, HighDimDirectLiNGAM, ICALiNGAM, LiM, LiNA,
                    LongitudinalLiNGAM, MDLiNA, MultiGroupDirectLiNGAM, MultiGroupRCD, RCD, RESIT, VARLiNGAM,
                    VARMALiNGAM)
from lingam.multi_group_camuv import MultiGroupCAMUV
from sklearn.linear_model import LinearRegression
from sklearn.tree import DecisionTreeRegressor
from sklearn.ensemble import RandomForestRegressor

from .core import UNSET, freeze, attempt, Raised


# ------------------------------------------------------------------------ data
def sem(rs, n, p, hidden=0, B=None, nonlinear=False, skew=None):
    m = p + hidden
    if B is None:
        order = rs.permutation(m)
        B = np.zeros((m, m))
        for a in range(m):
            for b in range(a):
                if rs.rand() < 0.6:
                    B[order[a], order[b]] = rs.choice([-1, 1]) * rs.uniform(0.6, 1.6)
    E = rs.uniform(-1, 1, size=(n, m)) * rs.uniform(0.7, 1.5, size=m)
    kind = rs.randint(3)
    if kind == 1:
        E = np.sign(E) * np.abs(E) ** 1.5
    elif kind == 2:
        E = rs.laplace(size=(n, m))
    if skew == "exp":
        E = rs.exponential(size=(n, m))
    elif skew == "heavy":
        E = rs.laplace(size=(n, m)) ** 3
    X = np.zeros((n, m))
    done = []
    indeg = [set(np.nonzero(B[i])[0]) for i in range(m)]
    while len(done) < m:
        for i in range(m):
            if i not in done and indeg[i] <= set(done):
                z = X @ B[i]
                X[:, i] = (np.sin(z) + 0.5 * z if nonlinear else z) + E[:, i]
                done.append(i)
    cols = np.sort(rs.permutation(m)[:p])
    return X[:, cols]


def var_series(rs, n, p, lags=1):
    B0 = np.tril(rs.uniform(-0.8, 0.8, (p, p)), -1)
    perm = rs.permutation(p)
    B0 = B0[np.ix_(perm, perm)]
    Ms = [rs.uniform(-0.4, 0.4, (p, p)) / lags for _ in range(lags)]
    A = np.linalg.inv(np.eye(p) - B0)
    X = np.zeros((n + 20, p))
    for t in range(lags, n + 20):
        e = rs.uniform(-1, 1, p)
        X[t] = A @ (sum(M @ X[t - 1 - k] for k, M in enumerate(Ms)) + e)
        X[t] = np.clip(X[t], -50, 50)
    return X[20:]


def as_form(X, form):
    if form == "df":
        return pd.DataFrame(X, columns=["v%d" % i for i in range(X.shape[1])])
    if form == "dfidx":
        n = X.shape[0]
        return pd.DataFrame(X, columns=["v%d" % i for i in range(X.shape[1])], index=np.arange(n)[::-1] * 3 + 5)
    if form == "list":
        return X.tolist()
    if form == "F":
        return np.asfortranarray(X)
    if form == "strided":
        Y = np.full((X.shape[0] * 2, X.shape[1] * 2), 7.25)
        Y[::2, ::2] = X
        return Y[::2, ::2]
    if form == "ro":
        X = X.copy()
        X.flags.writeable = False
        return X
    return X


FORMS = ["nd", "nd", "nd", "df", "F", "ro", "strided", "dfidx"]


TX = ["rowrev", "colrev", "neg", "swap", "last", "mid", "indep"]


def transform(X, tx):
    """A data set closely related to X: same shape, often the same sums or the same first rows."""
    X = np.array(X)
    if tx == "rowrev":
        return X[::-1].copy()
    if tx == "colrev":
        return X[:, ::-1].copy()
    if tx == "neg":
        return -X
    if tx == "powers":         # nonlinear functions of one variable: everything depends on everything
        h = 2 * (np.argsort(np.argsort(X[:, 0])) + 0.5) / len(X) - 0.97
        return np.column_stack([h ** (1 << j) for j in range(X.shape[1])])
    if tx == "indep":          # every variable by itself: nothing left to find
        for j in range(1, X.shape[1]):
            X[:, j] = X[np.random.RandomState(j).permutation(len(X)), j]
        return X
    if tx == "cancel":         # a chain whose ends are (nearly) uncorrelated
        E = transform(X, "indep")
        E = (E - E.mean(axis=0)) / E.std(axis=0)
        rs = np.random.RandomState(int(abs(X[0, 0]) * 1e6) % 65521)
        col = rs.permutation(X.shape[1])
        a, b, w = rs.uniform(0.6, 1.6), rs.uniform(0.6, 1.6), rs.uniform(0.6, 1.2)
        X[:, col[0]] = E[:, 0]
        for k in range(1, X.shape[1]):
            X[:, col[k]] = a * X[:, col[0]] + E[:, 1] if k == 1 else b * X[:, col[k - 1]] - (a * b * w * X[:, col[0]] if k == 2 else 0) + E[:, k]
        return X
    if tx == "swap":
        k = len(X) // 3
        return np.vstack([X[k:], X[:k]]) * np.array([1.0] * (X.shape[1] - 1) + [-1.0])
    X[-1 if tx == "last" else len(X) // 2] += np.arange(1, X.shape[1] + 1) * 2.5
    return X


def data(kind, d):
    """d: {'seed','n','p','k','form'[,'tx']} -> positional args of fit (tuple)"""
    tx = d.get("tx")
    if kind == "mixed" and tx in ("indep", "rowrev"):
        X, dis = _data(kind, dict(d, form="nd", tx=None))
        return (as_form(transform(X, tx), d.get("form", "nd")), dis)
    if not tx or kind in ("mixed", "lina", "mdlina"):
        return _data(kind, d)
    (X,) = _data(kind, dict(d, form="nd", tx=None))
    form = d.get("form", "nd")
    if isinstance(X, list):
        return ([as_form(transform(x, tx), "nd" if form == "list" and (g or kind == "long") else form) for g, x in enumerate(X)],)
    return (as_form(transform(X, tx), form),)


def _data(kind, d):
    rs = np.random.RandomState(d["seed"] & 0x7FFFFFFF)
    n, p, form = d["n"], d.get("p", 3), d.get("form", "nd")
    sc = d.get("scale", 1.0)
    if kind == "rcd":
        # strongly non-Gaussian, so that ancestors are found also in small samples
        X = sem(rs, n, p, hidden=int(rs.randint(2)), skew=[None, "exp", "exp", "heavy", "heavy"][rs.randint(5)]) * sc
        return (as_form(X, form),)
    if kind in ("iid", "iid_hidden", "nonlin"):
        X = sem(rs, n, p, hidden=1 if kind == "iid_hidden" else 0, nonlinear=kind == "nonlin") * sc
        return (as_form(X, form),)
    if kind in ("groups", "groups_hidden"):
        m = p + (1 if kind == "groups_hidden" else 0)
        order = rs.permutation(m)
        mask = np.zeros((m, m))
        for a in range(m):
            for b in range(a):
                mask[order[a], order[b]] = rs.rand() < 0.6
        Xs = []
        skew = [None, "exp", "exp", "heavy", "heavy"][rs.randint(5)] if kind == "groups_hidden" else None
        for g in range(d["k"]):
            B = mask * rs.choice([-1, 1], (m, m)) * rs.uniform(0.6, 1.6, (m, m))
            X = sem(rs, n + (0 if d["seed"] % 4 == 0 else 7 * g), m, B=B, skew=skew)[:, :p]
            if g and d["seed"] % 8 == 0:
                X[:3] = np.asarray(Xs[0])[:3]      # equal sizes and equal first rows
            Xs.append(as_form(X, form if g == 0 else ("nd" if form == "list" else form)))
        return (Xs,)
    if kind == "ts":
        return (as_form(var_series(rs, n, p, d.get("k", 1)), form),)
    if kind == "long":
        order = rs.permutation(p)
        mask = np.zeros((p, p))
        for a in range(p):
            for b in range(a):
                mask[order[a], order[b]] = rs.rand() < 0.7
        Xs, prev = [], None
        for t in range(d["k"]):
            B = mask * rs.uniform(-1.2, 1.2, (p, p))
            A = np.linalg.inv(np.eye(p) - B)
            E = rs.uniform(-1, 1, (n, p))
            if prev is not None:
                E = E + prev @ rs.uniform(-0.7, 0.7, (p, p))
            prev = E @ A.T
            Xs.append(as_form(prev, form))
        return (Xs,)
    if kind == "mixed":
        X = sem(rs, n, p)
        dis = np.ones((1, p))
        k = rs.randint(0, p)
        for j in range(k):
            X[:, j] = (X[:, j] > np.median(X[:, j])).astype(float)
            dis[0, j] = 0
        return (X if form not in ("ro", "F") else as_form(X, form), dis)
    if kind == "lina":
        q = p
        F = sem(rs, n, q)
        sd = F.std(axis=0)
        G = np.zeros((2 * q, q))
        for j in range(q):
            G[2 * j, j] = 1
            G[2 * j + 1, j] = 1
        lam = rs.uniform(0.7, 1.2, (2 * q, q)) * G
        X = (F / sd) @ lam.T + 0.2 * rs.randn(n, 2 * q)
        X = X - X.mean(axis=0)
        sgn = np.where(rs.rand(1, q) < 0.2, -1.0, 1.0)     # the orientation of a latent is arbitrary
        return (X, G, sd.reshape(1, -1) * sgn)
    if kind == "mdlina":
        q = 2
        F1, F2 = sem(rs, n, q), None
        F2 = F1 + 0.1 * rs.randn(n, q)
        G = np.zeros((4 * q, 2 * q))
        for j in range(2 * q):
            G[2 * j, j] = 1
            G[2 * j + 1, j] = 1
        F = np.hstack([F1, F2])
        lam = rs.uniform(0.7, 1.2, G.shape) * G
        X = F @ lam.T + 0.2 * rs.randn(n, 4 * q)
        sc_ = np.zeros((2, 2 * q))
        sc_[0, :q] = F1.std(axis=0)
        sc_[1, q:] = F2.std(axis=0)
        return (X, G, sc_)
    raise KeyError(kind)


def make_pk(rs, p):
    """A consistent prior-knowledge matrix (0 no path, 1 path, -1 unknown)."""
    pk = -np.ones((p, p), dtype=int)
    order = rs.permutation(p)
    for a in range(p):
        for b in range(a):
            i, j = order[a], order[b]
            u = rs.rand()
            if u < 0.25:
                pk[j, i] = 0
            elif u < 0.4:
                pk[i, j] = 1
                pk[j, i] = 0
            elif u < 0.5:
                pk[j, i] = 0
                pk[i, j] = 0
    if p > 2 and rs.rand() < 0.15:         # two known roots, and a variable known to depend on neither
        roots = order[:2]
        pk[roots] = 0
        pk[order[-1], roots] = 0
        pk[roots, roots] = -1
    return pk


def make_reg(spec):
    if spec == "tree":
        return DecisionTreeRegressor(max_depth=3, random_state=0)
    if spec == "forest":
        return RandomForestRegressor(n_estimators=4, max_depth=3, random_state=0)
    return LinearRegression()


# -------------------------------------------------------------------- adapters
class Model:
    name = None
    kind = "iid"
    attrs = ("causal_order_", "adjacency_matrix_")
    has_boot = True
    pmin, pmax = 2, 4
    nmin, nmax = 30, 90
    wide = 4           # number of variables in a small share of the runs
    cost = 1.0
    tall = False       # cheap enough for many rows
    probes = {}        # (n, p): seeds of data on which the result is sensitive to the settings
    forms = FORMS
    uses_rng = False   # fit consumes the global stream when unseeded

    given = None       # caller-owned objects handed to the last constructor call

    def config(self, rng):
        return {}

    def make(self, cfg):
        raise NotImplementedError

    def dspec(self, rng, cfg=None, form=None):
        p = (cfg or {}).get("p") or (self.wide if rng.random() < 0.06 else rng.randint(self.pmin, self.pmax))
        n = rng.randint(101, 130) if rng.random() < 0.07 else rng.randint(self.nmin, self.nmax)
        if self.tall and (cfg or {}).get("measure") != "kernel" and rng.random() < 0.012:
            n = rng.randint(260, 1100)     # beyond any fixed block, cap or window
        d = {"seed": rng.randrange(1 << 30), "n": n, "p": p, "form": form or rng.choice(self.forms)}
        if self.probes and not (cfg or {}).get("p") and rng.random() < 0.2:
            (d["n"], d["p"]), seeds = rng.choice(sorted(self.probes.items()))
            d["seed"] = rng.choice(seeds)
            d["probe"] = True
        elif rng.random() < 0.03:
            d["tx"] = "indep"
        return d

    def args(self, cfg, d):
        return data(self.kind, d)

    def fit(self, est, args):
        return est.fit(*args)

    def snap(self, est):
        out = {}
        for a in self.attrs:
            try:
                v = getattr(est, a)
            except AttributeError:
                v = None
            out[a] = UNSET if v is None else freeze(v)
        return out

    def queries(self, est, args, d):
        """[(label, thunk)] of read-only queries on a fitted object."""
        p = d["p"]
        X = args[0]
        qs = [("p_values", lambda: est.get_error_independence_p_values(X))]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(X, i, j)))
        return qs

    def boot(self, est, args, n, cfg=None):
        return est.bootstrap(args[0], n)

    def boot_snap(self, res):
        out = {}
        for a in ("adjacency_matrices_", "total_effects_", "resampled_indices_"):
            if hasattr(res, a):
                v = getattr(res, a)
                out[a] = UNSET if v is None else freeze(v)
        return out


class MDirect(Model):
    wide = 7
    name = "DirectLiNGAM"
    tall = True

    def config(self, rng):
        c = {"measure": rng.choice(["pwling", "pwling", "pwling", "kernel"]), "p": None, "pk": None, "soft": False}
        if rng.random() < 0.45:
            c["p"] = rng.randint(2, 4)
            c["pk"] = rng.randrange(1 << 30)
            c["soft"] = rng.random() < 0.4
        return c

    def pk(self, cfg):
        r = None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
        self.given = None if r is None else {"prior_knowledge": r}
        return r

    def make(self, cfg):
        return DirectLiNGAM(prior_knowledge=self.pk(cfg), apply_prior_knowledge_softly=cfg["soft"],
                            measure=cfg["measure"])


class MICA(Model):
    wide = 6
    name = "ICALiNGAM"
    tall = True
    nmin, nmax = 60, 150
    uses_rng = True

    def config(self, rng):
        return {"rs": rng.choice([None, 0, 7])}

    def make(self, cfg):
        return ICALiNGAM(random_state=cfg["rs"], max_iter=200)


class MHighDim(Model):
    wide = 7
    name = "HighDimDirectLiNGAM"
    probes = {(60, 7): [6, 10, 13, 16, 19, 25, 26, 28, 33, 34, 36, 38, 42, 49]}
    tall = True

    def config(self, rng):
        return {"J": rng.choice([3, 4, 5]), "K": rng.choice([3, 4]), "adj": rng.random() < 0.85}

    def make(self, cfg):
        return HighDimDirectLiNGAM(J=cfg["J"], K=cfg["K"], estimate_adj_mat=cfg["adj"])

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        if not d.get("probe") and rng.random() < 0.15:
            d["p"], d["n"] = 6, 6   # the n_samples <= n_features path
        return d


class MRESIT(Model):
    wide = 5
    name = "RESIT"
    kind = "nonlin"

    def config(self, rng):
        return {"reg": rng.choice(["lin", "tree", "tree"])}

    def make(self, cfg):
        return RESIT(regressor=make_reg(cfg["reg"]))

    def queries(self, est, args, d):
        X = args[0]
        return [("p_values", lambda: est.get_error_independence_p_values(X)),
                ("te(0,1)", lambda: est.estimate_total_effect(X, 0, 1))]


class MMulti(Model):
    wide = 6
    name = "MultiGroupDirectLiNGAM"
    tall = True
    kind = "groups"
    attrs = ("causal_order_", "adjacency_matrices_")

    def config(self, rng):
        c = {"p": None, "pk": None, "soft": False}
        if rng.random() < 0.4:
            c["p"] = rng.randint(2, 4)
            c["pk"] = rng.randrange(1 << 30)
            c["soft"] = rng.random() < 0.4
        return c

    def pk(self, cfg):
        r = None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
        self.given = None if r is None else {"prior_knowledge": r}
        return r

    def make(self, cfg):
        return MultiGroupDirectLiNGAM(prior_knowledge=self.pk(cfg), apply_prior_knowledge_softly=cfg["soft"])

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        d["k"] = rng.randint(2, 3)
        return d

    def queries(self, est, args, d):
        p = d["p"]
        Xs = args[0]
        qs = [("p_values", lambda: est.get_error_independence_p_values(Xs))]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(Xs, i, j)))
                    qs.append(("te2(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(i, j)))
        return qs

    def boot_snap(self, res):
        return {"len": len(res), **{"g%d.%s" % (g, k): v for g, r in enumerate(res) for k, v in super(MMulti, self).boot_snap(r).items()}}


class MBottomUp(Model):
    wide = 5
    name = "BottomUpParceLiNGAM"
    kind = "iid_hidden"
    nmin, nmax = 40, 90

    def config(self, rng):
        c = {"reg": rng.choice([None, None, "lin", "tree"]), "ind": rng.choice(["hsic", "hsic", "fcorr"]),
             "alpha": rng.choice([0.1, 0.01, 0.0, 0.5, 0.9]), "ic": rng.choice([0.5, 0.5, 0.2, 0.1]), "p": None, "pk": None}
        if rng.random() < 0.35:
            c["p"] = rng.randint(3, 4)
            c["pk"] = rng.randrange(1 << 30)
        return c

    def pk(self, cfg):
        r = None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
        self.given = None if r is None else {"prior_knowledge": r}
        return r

    def make(self, cfg):
        return BottomUpParceLiNGAM(regressor=None if cfg["reg"] is None else make_reg(cfg["reg"]),
                                   independence=cfg["ind"], alpha=cfg["alpha"], ind_corr=cfg["ic"], prior_knowledge=self.pk(cfg))

    def queries(self, est, args, d):
        qs = super().queries(est, args, d)
        p = d["p"]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te2(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(i, j)))
        return qs


class MRCD(Model):
    wide = 4
    name = "RCD"
    kind = "rcd"
    probes = {(60, 3): [1, 110, 152, 161, 175, 261, 286, 305, 324, 354],
              (60, 4): [7, 16, 35, 40, 44, 48, 56, 71, 72, 77, 206, 217, 287, 459, 1167, 1168]}
    attrs = ("ancestors_list_", "adjacency_matrix_")
    nmin, nmax = 40, 80

    def config(self, rng):
        return {"m": rng.choice([1, 2, 2, 3]), "ind": rng.choice(["hsic", "hsic", "fcorr"]), "ml": rng.random() < 0.15,
                "bw": rng.choice(["mdbs", "mdbs", "scott", "silverman"]), "ca": rng.choice([0.01, 0.1]), "sa": rng.choice([0.01, 0.01, 1.0]),
                "ia": rng.choice([0.01, 0.01, 0.001, 0.1])}

    def make(self, cfg):
        return RCD(max_explanatory_num=cfg["m"], independence=cfg["ind"], MLHSICR=cfg["ml"], bw_method=cfg["bw"],
                   cor_alpha=cfg["ca"], shapiro_alpha=cfg["sa"], ind_alpha=cfg["ia"])

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        if d["p"] == 4 and not d.get("probe") and rng.random() < 0.85:
            d["p"] = 3
        return d

    def queries(self, est, args, d):
        qs = super().queries(est, args, d)
        p = d["p"]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te2(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(i, j)))
        return qs


class MMultiRCD(MRCD):
    name = "MultiGroupRCD"
    kind = "groups_hidden"
    probes = {(50, 3): [8, 52, 61, 62, 85, 92, 97, 118, 121, 126], (50, 4): [6, 9, 17, 25, 29, 43, 55, 69, 73, 82]}
    attrs = ("ancestors_list_", "adjacency_matrices_")

    def make(self, cfg):
        return MultiGroupRCD(max_explanatory_num=cfg["m"], independence=cfg["ind"], MLHSICR=cfg["ml"],
                             bw_method=cfg["bw"], cor_alpha=cfg["ca"], shapiro_alpha=cfg["sa"], ind_alpha=cfg["ia"])

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        d["k"] = 2
        d["n"] = min(d["n"], 60)
        return d

    def boot_snap(self, res):
        return {"len": len(res), **{"g%d.%s" % (g, k): v for g, r in enumerate(res) for k, v in Model.boot_snap(self, r).items()}}


class MCAMUV(Model):
    wide = 4
    name = "CAMUV"
    kind = "nonlin"
    attrs = ("adjacency_matrix_",)
    has_boot = False
    nmin, nmax = 40, 60
    cost = 6.0

    def config(self, rng):
        c = {"m": rng.choice([1, 2, 3]), "ind": rng.choice(["hsic", "hsic", "fcorr"]), "alpha": rng.choice([0.01, 0.1]), "pk": None,
             "p": None}
        if rng.random() < 0.4:
            # (a, b): a does not cause b
            c["p"] = 3
            c["pk"] = rng.choice([[[0, 1]], [[0, 1], [2, 1]], [[1, 0], [2, 0]], [[0, 2], [1, 2], [0, 1]], [[1, 0], [0, 1]], [[2, 0]]])
        return c

    def make(self, cfg):
        pk = None if cfg["pk"] is None else [tuple(x) for x in cfg["pk"]]
        self.given = None if pk is None else {"prior_knowledge": pk}
        return CAMUV(alpha=cfg["alpha"], num_explanatory_vals=cfg["m"], independence=cfg["ind"], prior_knowledge=pk)

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        if d["p"] == 4 and rng.random() < 0.85:
            d["p"] = 3
        return d

    def queries(self, est, args, d):
        return []


class MMultiCAMUV(MCAMUV):
    name = "MultiGroupCAMUV"
    kind = "groups"

    def make(self, cfg):
        pk = None if cfg["pk"] is None else [tuple(x) for x in cfg["pk"]]
        self.given = None if pk is None else {"prior_knowledge": pk}
        return MultiGroupCAMUV(alpha=cfg["alpha"], num_explanatory_vals=cfg["m"], independence=cfg["ind"],
                               prior_knowledge=pk)

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        d["k"] = 2
        return d


class MVAR(Model):
    wide = 4
    name = "VARLiNGAM"
    tall = True
    kind = "ts"
    attrs = ("causal_order_", "adjacency_matrices_", "residuals_")
    pmax = 3
    nmin, nmax = 50, 90

    def config(self, rng):
        c = {"lags": rng.choice([1, 1, 2, 3]), "crit": rng.choice(["bic", "aic", None]), "prune": rng.random() < 0.6,
             "p": None, "ar": None, "inner": rng.choice([None, None, "ica", "direct"])}
        if rng.random() < 0.25:
            c["p"] = rng.choice([2, 2, 3])
            c["ar"] = rng.randrange(1 << 30)
            c["lags"] = rng.choice([1, 1, 2])
        return c

    def make(self, cfg):
        ar = None
        if cfg["ar"] is not None:
            ar = np.random.RandomState(cfg["ar"]).uniform(-0.4, 0.4, (cfg["lags"], cfg["p"], cfg["p"]))
        self.given = None if ar is None else {"ar_coefs": ar}
        inner = {None: None, "ica": ICALiNGAM(random_state=0, max_iter=100), "direct": DirectLiNGAM()}[cfg["inner"]]
        return VARLiNGAM(lags=cfg["lags"], criterion=cfg["crit"], prune=cfg["prune"], ar_coefs=ar, lingam_model=inner)

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        d["k"] = rng.choice([1, 2])
        return d

    def queries(self, est, args, d):
        p = d["p"]
        X = args[0]
        qs = [("p_values", lambda: est.get_error_independence_p_values())]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(X, i, j)))
                for lag in (0, 1):
                    if i != j or lag:
                        qs.append(("te2(%d,%d,%d)" % (i, j, lag),
                                   lambda i=i, j=j, lag=lag: est.estimate_total_effect2(p, i, j, lag)))
                qs.append(("te(%d,%d,1)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(X, i, j, 1)))
        return qs


class MVARMA(MVAR):
    wide = 2
    name = "VARMALiNGAM"
    tall = False
    pmax = 2
    nmin, nmax = 40, 60
    cost = 20.0

    def config(self, rng):
        c = {"order": rng.choice([[1, 1], [1, 1], [2, 1]]), "crit": rng.choice([None, None, "bic"]),
             "prune": rng.random() < 0.6, "p": None, "ar": None}
        if rng.random() < 0.5:
            c["p"] = rng.choice([2, 2, 3])
            c["ar"] = rng.randrange(1 << 30)
            c["order"] = rng.choice([[1, 1], [2, 1], [1, 2], [1, 2]])
            c["prune"] = False   # user-supplied coefficients with pruning are rejected by numpy on every input
        return c

    def make(self, cfg):
        ar = ma = None
        if cfg["ar"] is not None:
            rs = np.random.RandomState(cfg["ar"])
            ar = rs.uniform(-0.4, 0.4, (cfg["order"][0], cfg["p"], cfg["p"]))
            ma = rs.uniform(-0.3, 0.3, (cfg["order"][1], cfg["p"], cfg["p"]))
        self.given = None if ar is None else {"ar_coefs": ar, "ma_coefs": ma}
        return VARMALiNGAM(order=tuple(cfg["order"]), criterion=cfg["crit"], prune=cfg["prune"], ar_coefs=ar, ma_coefs=ma,
                           max_iter=3)

    uses_rng = True

    def queries(self, est, args, d):
        p = d["p"]
        X = args[0]
        qs = [("p_values", lambda: est.get_error_independence_p_values())]
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j),
                               lambda i=i, j=j: est.estimate_total_effect(X, np.asarray(est.residuals_), i, j)))
                for lag in (0, 1):
                    if i != j or lag:
                        qs.append(("te2(%d,%d,%d)" % (i, j, lag),
                                   lambda i=i, j=j, lag=lag: est.estimate_total_effect2(p, i, j, lag)))
        return qs


class MLong(Model):
    wide = 4
    name = "LongitudinalLiNGAM"
    tall = True
    kind = "long"
    attrs = ("causal_orders_", "adjacency_matrices_", "residuals_")
    pmax = 3

    def config(self, rng):
        c = {"lags": rng.choice([1, 1, 2]), "measure": rng.choice(["pwling", "kernel"]), "p": None, "pk": None, "T": None}
        if rng.random() < 0.3:
            c.update(lags=rng.choice([1, 1, 2]), measure="pwling", p=2, T=rng.choice([3, 3, 4]), pk=rng.randrange(1 << 30))
        return c

    def pk(self, cfg):
        self.given = None
        if cfg.get("pk") is None:
            return None
        rs = np.random.RandomState(cfg["pk"])
        k = -np.ones((cfg["T"], cfg["lags"] + 1, cfg["p"], cfg["p"]), dtype=int)
        for t in range(cfg["T"]):
            k[t, 0] = make_pk(rs, cfg["p"])
            for lag in range(1, cfg["lags"] + 1):
                k[t, lag][rs.rand(cfg["p"], cfg["p"]) < 0.3] = 0
        self.given = {"prior_knowledge": k}
        return k

    def make(self, cfg):
        return LongitudinalLiNGAM(n_lags=cfg["lags"], measure=cfg["measure"], prior_knowledge=self.pk(cfg))

    def dspec(self, rng, cfg=None, form=None):
        d = super().dspec(rng, cfg, form)
        d["k"] = (cfg or {}).get("T") or (5 if rng.random() < 0.12 else rng.randint(3, 4))
        d["n"] = min(d["n"], 60) if d["n"] < 200 else d["n"]
        return d

    def boot(self, est, args, n, cfg=None):
        return est.bootstrap(args[0], n, start_from_t=(cfg or {}).get("lags", 2))

    def queries(self, est, args, d):
        p, T = d["p"], d["k"]
        Xs = args[0]
        qs = [("p_values", lambda: est.get_error_independence_p_values())]
        for t in (1, 2):
            for i in range(p):
                for j in range(p):
                    if i != j:
                        qs.append(("te(%d,%d,%d)" % (t, i, j),
                                   lambda t=t, i=i, j=j: est.estimate_total_effect(Xs, t, i, t, j)))
                        qs.append(("te2(%d,%d,%d)" % (t, i, j),
                                   lambda t=t, i=i, j=j: est.estimate_total_effect2(t, i, t, j)))
                    if t == 2:
                        qs.append(("te2x(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(1, i, 2, j)))
        return qs


class MLiM(Model):
    wide = 3
    name = "LiM"
    kind = "mixed"
    attrs = ("adjacency_matrix_",)
    has_boot = False
    pmax = 3
    cost = 5.0
    uses_rng = True
    forms = ["nd", "ro", "F"]

    def config(self, rng):
        return {"glob": rng.random() < 0.4, "loss": rng.choice(["mixed", "mixed", "mixed", "laplace", "laplace", "logistic"]),
                "poi": rng.random() < 0.2}

    def make(self, cfg):
        m = LiM(loss_type=cfg["loss"], max_iter=4, rho_max=1e8)
        return m

    def args(self, cfg, d):
        return data("mixed", d) + (cfg["glob"], cfg["poi"])

    def queries(self, est, args, d):
        return []


class MLiNA(Model):
    wide = 3
    name = "LiNA"
    kind = "lina"
    attrs = ("adjacency_matrix_", "measurement_matrix_")
    has_boot = False
    pmin, pmax = 2, 3
    nmin, nmax = 60, 120
    forms = ["nd"]

    def config(self, rng):
        return {"loss": rng.choice(["laplace", "laplace", "l2", "l2", "logistic", "poisson"]), "thr": rng.choice([0.3, 0.1])}

    def make(self, cfg):
        return LiNA(loss_type=cfg["loss"], w_threshold=cfg["thr"], max_iter=20)

    def queries(self, est, args, d):
        return []


class MMDLiNA(MLiNA):
    name = "MDLiNA"
    kind = "mdlina"
    uses_rng = True
    cost = 15.0
    pmin = pmax = 2
    nmin, nmax = 40, 60

    def config(self, rng):
        return {"thr": rng.choice([0.1, 0.05]), "it": rng.choice([1, 1, 2])}

    def make(self, cfg):
        return MDLiNA(w_threshold=cfg["thr"], max_iter=cfg["it"], no_of_domain=2, no_of_latent_1domain=2)


MODELS = {m.name: m for m in [MDirect(), MICA(), MHighDim(), MRESIT(), MMulti(), MBottomUp(), MRCD(), MMultiRCD(),
                              MCAMUV(), MMultiCAMUV(), MVAR(), MVARMA(), MLong(), MLiM(), MLiNA(), MMDLiNA()]}
