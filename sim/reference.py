"""Small executable reference models, written from the documentation only, in plain Python."""
import itertools

import numpy as np


def edges(A, thr):
    """{(to, from): value} of the entries that count as a causal direction (NaN: no direction)."""
    A = np.asarray(A, dtype=float)
    return {(i, j): float(A[i, j]) for i in range(A.shape[0]) for j in range(A.shape[1])
            if not np.isnan(A[i, j]) and abs(A[i, j]) > thr}


def direction_counts(ams, thr, split):
    c = {}
    for A in ams:
        for (i, j), v in edges(A, thr).items():
            k = (j, i, (1 if v > 0 else -1) if split else 0)
            c[k] = c.get(k, 0) + 1
    return c


def dag_counts(ams, thr, split):
    c = {}
    for A in ams:
        k = frozenset((j, i, (1 if v > 0 else -1) if split else 0) for (i, j), v in edges(A, thr).items())
        c[k] = c.get(k, 0) + 1
    return c


def probabilities(ams, thr):
    ams = np.asarray(ams, dtype=float)
    out = np.zeros(ams.shape[1:])
    for idx in itertools.product(*[range(s) for s in ams.shape[1:]]):
        vals = ams[(slice(None),) + idx]
        out[idx] = sum(1 for v in vals if not np.isnan(v) and abs(v) > thr) / len(vals)
    return out


def total_effects(tes, thr):
    """{(from, to): (effect, probability)}"""
    tes = np.asarray(tes, dtype=float)
    out = {}
    for i in range(tes.shape[1]):
        for j in range(tes.shape[2]):
            vals = [v for v in tes[:, i, j]]
            pr = sum(1 for v in vals if abs(v) > thr) / len(vals)
            if pr > 0:
                nz = sorted(v for v in vals if abs(v) > 0)
                k = len(nz)
                med = nz[k // 2] if k % 2 else (nz[k // 2 - 1] + nz[k // 2]) / 2
                out[(j, i)] = (med, pr)
    return out


def all_paths(A, src, dst, thr):
    """{tuple(path): product of coefficients}, simple recursion over edges src -> ... -> dst."""
    E = edges(A, thr)
    out = {}

    def walk(path, eff):
        u = path[-1]
        if u == dst:
            out[tuple(path)] = eff
            return
        for (i, j), v in E.items():
            if j == u and i not in path:
                walk(path + [i], eff * v)
    walk([src], 1.0)
    return out


def path_summary(expanded, src, dst, thr):
    """{path: (median effect, probability)}"""
    acc = {}
    for A in expanded:
        for p, e in all_paths(A, src, dst, thr).items():
            acc.setdefault(p, []).append(e)
    out = {}
    for p, v in acc.items():
        v = sorted(v)
        k = len(v)
        out[p] = (v[k // 2] if k % 2 else (v[k // 2 - 1] + v[k // 2]) / 2, k / len(expanded))
    return out


def expand_lagged(am, blocks):
    """[B0 | B1 | ...] (p x p*(L+1)) -> block matrix over lags 0..blocks-1: node (lag a) <- node (lag b>=a) by B_{b-a}."""
    p = am.shape[0]
    M = np.zeros((p * blocks, p * blocks))
    for a in range(blocks):
        for b in range(a, blocks):
            for i in range(p):
                for j in range(p):
                    M[p * a + i, p * b + j] = am[i, p * (b - a) + j]
    return M


def expand_long(am, t0, t1):
    """am[t, tau] (T x lags+1 x p x p) -> nodes of timepoints t0..t1: (t) <- (t - tau) by am[t, tau]."""
    p = am.shape[2]
    k = t1 - t0 + 1
    M = np.zeros((p * k, p * k))
    for a in range(k):
        for tau in range(0, min(a, am.shape[1] - 1) + 1):
            b = a - tau
            for i in range(p):
                for j in range(p):
                    v = am[t0 + a, tau, i, j]
                    M[p * a + i, p * b + j] = 0 if np.isnan(v) else v
    return M


def total_effect_paths(A, src, dst):
    return sum(all_paths(A, src, dst, 0.0).values())


def is_acyclic(A):
    A = np.nan_to_num(np.asarray(A, dtype=float)) != 0
    left = set(range(len(A)))
    while left:
        roots = [i for i in left if not any(A[i, j] for j in left)]
        if not roots:
            return False
        left -= set(roots)
    return True


# ------------------------------------------------- regressions and independence tests
def ols(Z, y):
    """coefficients of y on the columns of Z, with intercept"""
    Z, y = np.asarray(Z, dtype=float), np.asarray(y, dtype=float)
    return np.linalg.lstsq(Z - Z.mean(axis=0), y - y.mean(), rcond=None)[0]


def parents_of(row):
    return [j for j, v in enumerate(row) if not np.isnan(v) and v != 0]


def regression_effect(X, A, src, dst):
    """effect of src on dst: regression of dst on src and src's parents"""
    return float(ols(X[:, [src] + parents_of(A[src])], X[:, dst])[0])


def hsic_p(x, y):
    return hsic(x, y)[1]


def hsic(x, y, bw="mdbs"):
    """statistic and p-value of the HSIC test (gamma approximation, median-distance bandwidth over at most 100 points)"""
    from scipy.stats import gamma

    def gram(v):
        v = v.reshape(len(v), -1)
        D = ((v[:, None, :] - v[None, :, :]) ** 2).sum(axis=2)
        m = min(len(v), 100)
        up = D[:m, :m][np.triu_indices(m, 1)]
        w2 = 0.5 * np.median(up[up > 0])
        if bw in ("scott", "silverman"):
            u = v[:, 0]
            q75, q25 = np.percentile(u, 75), np.percentile(u, 25)
            s = min(u.std(ddof=1), (q75 - q25) / 1.349)
            w2 = ({"scott": 1.059, "silverman": 0.9}[bw] * s * len(u) ** -0.2) ** 2
        return np.exp(-D / (2 * w2))
    n = len(x)
    K, L = gram(np.asarray(x, dtype=float)), gram(np.asarray(y, dtype=float))
    H = np.eye(n) - 1.0 / n
    Kc, Lc = H @ K @ H, H @ L @ H
    stat = (Kc * Lc).sum() / n
    v = (Kc * Lc / 6) ** 2
    var = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    mx = (K.sum() - n) / n / (n - 1)
    my = (L.sum() - n) / n / (n - 1)
    mean = (1 + mx * my - mx - my) / n
    return float(stat), float(gamma.sf(stat, mean ** 2 / var, scale=var * n / mean))


def p_matrix(E, skip=()):
    """p-values of all pairs; None where (nearly) equal values leave the bandwidth to rounding"""
    p = E.shape[1]
    for k in range(p):
        if k not in skip:
            v = np.sort(E[:100, k])
            if len(v) > 1 and (np.diff(v) < 1e-6 * max(v.std(), 1e-300)).any():
                return None
    P = np.zeros((p, p))
    for i in range(p):
        for j in range(i):
            P[i, j] = P[j, i] = np.nan if i in skip or j in skip else hsic_p(E[:, i], E[:, j])
    return P


def adaptive_lasso(X, preds, target):
    """regression of target on preds, superfluous predictors removed by the adaptive lasso (BIC)"""
    from sklearn.linear_model import LassoLarsIC
    X = np.asarray(X, dtype=float)
    preds = [int(k) for k in preds]
    S = (X - X.mean(axis=0)) / X.std(axis=0)
    w = np.abs(ols(S[:, preds], S[:, target]))
    keep = np.abs(LassoLarsIC(criterion="bic").fit(S[:, preds] * w, S[:, target]).coef_ * w) > 0
    out = np.zeros(len(preds))
    if keep.any():
        out[keep] = ols(X[:, [k for k, q in zip(preds, keep) if q]], X[:, target])
    return out


def same_regression(X, preds, target, got, rows=None):
    """does got equal the adaptive-lasso regression, up to what rounding of the data may decide?"""
    X = np.asarray(X, dtype=float)
    want = adaptive_lasso(X, preds, target)
    scale = X[:, target].std() / X[:, preds].std(axis=0)

    def eq(a, b):
        return bool(np.all(np.abs(a - b) <= 1e-6 * np.abs(b) + 1e-8 * scale))
    if eq(got, want):
        return True, want
    rs = np.random.RandomState(1)
    for k in range(6):
        Z = X * (1 + 10.0 ** (-13 + k // 2) * rs.uniform(-1, 1, X.shape))
        if eq(got, adaptive_lasso(Z, preds, target)):
            return True, want
    return False, want


def var_ls(X, lags):
    """least squares vector autoregression without constant -> (coefficients, residuals)"""
    n, p = X.shape
    Z = np.hstack([X[lags - 1 - k:n - 1 - k] for k in range(lags)])
    C = np.linalg.lstsq(Z, X[lags:], rcond=None)[0].T
    return [C[:, p * k:p * (k + 1)] for k in range(lags)], X[lags:] - Z @ C.T


def var_criterion(X, lags, kind):
    _, R = var_ls(X, lags)
    n, p = R.shape
    ld = np.linalg.slogdet(R.T @ R / n)[1]
    free = lags * p * p
    return ld + {"aic": 2.0, "bic": np.log(n), "hqic": 2 * np.log(np.log(n))}[kind] / n * free


def resid_to(X, k, on):
    on = sorted(on)
    return X[:, k] if not on else (X[:, k] - X[:, k].mean()) - (X[:, on] - X[:, on].mean(axis=0)) @ ols(X[:, on], X[:, k])


def correlation_p(pairs):
    """p-value that the pairs of variables are uncorrelated (several groups: combined by Fisher's method)"""
    from scipy.stats import chi2, pearsonr
    ps = [float(pearsonr(a, b)[1]) for a, b in pairs]
    if len(ps) == 1:
        return ps[0]
    return float(chi2.sf(sum(np.inf if q == 0 else -2 * np.log(q) for q in ps), df=2 * len(ps)))
