"""C17: the causal order (or ancestors) an estimator exposes is the one its documented search selects in the fitted data."""
import itertools

import numpy as np

from .. import reference as ref
from ..core import brief
from ..models import MODELS, make_pk, make_reg
from . import c16
from .c16 import Unjudged, arr, need, unset
from .common import BASE_REAL

ID = "C17"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 70000}
NAMES = ["DirectLiNGAM", "MultiGroupDirectLiNGAM", "ICALiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupRCD", "RESIT", "VARLiNGAM",
         "LongitudinalLiNGAM", "DirectLiNGAM", "VARMALiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM"]
RULE = ("one run = one estimator driven through a seeded history (fits on other data and shapes, fits failing at an injected call, refilled "
        "buffers, rejected input, bootstraps, pickle/deepcopy restarts, pairs of estimators fitted in interleaved threads); whenever a "
        "fit succeeded, and after one that failed, every step of the exposed order is judged by an independent computation of the "
        "documented measure on the fitted data; non-trivial: >=1 order judged; distinct by event-log hash")
STATE_MEASURE = "estimator x last operation x number of steps judged"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["numpy/stdlib global RNG position", "thread scheduler", "failing calls"]
ASSUMPTIONS = ["steps at which two candidates differ by rounding only are accepted either way",
               "kernel canonical correlations (fcorr) are taken from the package's own function, the search around them is judged",
               "unseeded ICA, HighDimDirectLiNGAM's order, CAM-UV, LiM and LiNA searches are not judged here"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    case = c16.gen(rng, index, tier, NAMES)
    if case["model"] == "ICALiNGAM":
        case["cfg"]["rs"] = rng.choice([0, 7, 3])
    cfg = case["cfg"]
    if cfg.get("soft") and cfg.get("pk") is not None and rng.random() < 0.6:
        for _ in range(300):                 # several candidates, and variables known not to be caused by them
            pk = pk_of(cfg)
            Uc, Vj = candidates(range(cfg["p"]), pk, True, None)
            if len(Uc) > 1 and Vj:
                break
            cfg["pk"] = rng.randrange(1 << 30)
    if case["model"] == "BottomUpParceLiNGAM" and cfg["p"] is None and rng.random() < 0.25:
        for d in case["pool"]:
            d["p"] = 5
    if "RCD" in case["model"]:
        for d in case["pool"]:
            if d["p"] > 2 and rng.random() < 0.3:
                d["tx"] = "cancel"
    if index % 390 == 12:                    # dependences so strong that every p-value is 0
        case["cfg"].update(reg=None, ind="hsic", alpha=rng.choice([0.1, 0.5]), p=None, pk=None)
        case["pool"] = [{"n": 2200, "p": 3, "seed": rng.randrange(1 << 30), "form": rng.choice(["nd", "df"]), "tx": "powers"}]
        case["ops"] = [dict(o, d=0, f=None) for o in case["ops"] if o["op"] == "fit"][:1]
    return case


shrink = c16.shrink


def run(case, ctx):
    c16.drive(case, ctx, judge, "order-not-of-the-documented-search")


def judge(m, cfg, args, s):
    nm = m.name
    with np.errstate(all="ignore"):
        if nm == "DirectLiNGAM":
            return direct([arr(args[0])], s["causal_order_"], pk_of(cfg), cfg["soft"], cfg["measure"])
        if nm == "MultiGroupDirectLiNGAM":
            return direct([arr(X) for X in args[0]], s["causal_order_"], pk_of(cfg), cfg["soft"])
        if nm == "ICALiNGAM":
            return ica(arr(args[0]), s["causal_order_"], cfg["rs"], 200)
        if nm == "RESIT":
            return resit(cfg, arr(args[0]), s["causal_order_"])
        if nm == "BottomUpParceLiNGAM":
            return bottom_up(cfg, arr(args[0]), s["causal_order_"], pk_of(cfg))
        if nm == "RCD":
            return rcd(cfg, [arr(args[0])], unset(s["ancestors_list_"]))
        if nm == "MultiGroupRCD":
            return rcd(cfg, [arr(X) for X in args[0]], unset(s["ancestors_list_"]))
        if nm in ("VARLiNGAM", "VARMALiNGAM"):
            R = np.asarray(s["residuals_"], dtype=float)
            if cfg.get("inner") == "ica":
                return ica(R, s["causal_order_"], 0, 100)
            return direct([R], s["causal_order_"])
        Xs = [arr(X) for X in args[0]]
        if m.pk(cfg) is None:
            R = np.asarray(s["residuals_"], dtype=float)
            return sum(direct([R[t]], s["causal_orders_"][t], None, False, cfg["measure"]) for t in range(cfg["lags"], len(Xs)))
        return long_pk(cfg, Xs, s["causal_orders_"], m.pk(cfg))


def pk_of(cfg):
    return None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])


# ------------------------------------------------------------------ DirectLiNGAM and its relatives
def before(pk):
    """{(a, b)}: a must come before b, by knowledge applied strongly"""
    p = len(pk)
    out = set()
    for i, j in itertools.product(range(p), repeat=2):
        if i != j:
            if pk[i, j] == 1:
                out.add((j, i))
            elif pk[i, j] == 0 and pk[j, i] != 0:
                out.add((i, j))
    return out


def candidates(U, pk, soft, must):
    """-> (candidates, those known not to be caused by any candidate)"""
    if pk is None:
        return list(U), []
    if not soft:
        return [i for i in U if not any((a, i) in must for a in U)], []
    rest = {j: [i for i in U if i != j] for j in U}
    Uc = [j for j in U if all(pk[j, i] == 0 for i in rest[j])]
    if not Uc:
        end = {j for j in U if any(pk[j, i] == 1 for i in rest[j])}
        end |= {i for i in U if all(pk[j, i] == 0 for j in rest[i])}
        Uc = [i for i in U if i not in end]
    return Uc, [i for i in U if i not in Uc and all(pk[i, j] == 0 for j in Uc)]


def entropy(u):
    return (1 + np.log(2 * np.pi)) / 2 - 79.047 * (np.mean(np.log(np.cosh(u))) - 0.37457) ** 2 - 7.4129 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2


def resid(a, b):
    """of a regressed on b (a not centred)"""
    return a - np.mean((a - a.mean()) * (b - b.mean())) / b.var() * b


def pairwise(X, i, U, Vj):
    """how clearly the other variables look like causes of i (0: not at all)"""
    z = {k: (X[:, k] - X[:, k].mean()) / X[:, k].std() for k in U}
    M = 0.0
    for j in U:
        if j == i:
            continue
        ri, rj = resid(z[i], z[j]), (z[j] if j in Vj else resid(z[j], z[i]))
        d = entropy(z[j]) + entropy(ri / ri.std()) - entropy(z[i]) - entropy(rj / rj.std())
        M += min(0.0, d) ** 2
    return M


def kernel_mi(a, b, kappa, sigma):
    n = len(a)

    def gram(v):
        return np.exp(-(v[:, None] - v[None, :]) ** 2 / (2 * sigma ** 2))
    K1, K2 = gram(a), gram(b)
    r = n * kappa / 2
    R1, R2 = K1 + r * np.eye(n), K2 + r * np.eye(n)
    # the first canonical correlations are the singular values of R1^-1 K1 K2 R2^-1
    c = np.linalg.svd(np.linalg.solve(R1, K1) @ np.linalg.solve(R2, K2).T, compute_uv=False)
    return -0.5 * float(np.sum(np.log1p(-np.minimum(c, 1 - 1e-15) ** 2)))


def scores(Xs, U, Uc, Vj, measure):
    if measure == "kernel":
        X = Xs[0]
        kappa, sigma = (2e-3, 0.5) if len(X) > 1000 else (2e-2, 1.0)
        return {j: sum(kernel_mi(X[:, j], resid(X[:, i], X[:, j]), kappa, sigma) for i in U if i != j) for j in Uc}
    tot = sum(len(X) for X in Xs)
    return {i: sum(pairwise(X, i, U, Vj) * len(X) / tot for X in Xs) for i in Uc}


def slack(v, measure):
    return 1e-6 * abs(v) + 1e-7 if measure == "kernel" else 1e-7 * np.sqrt(abs(v)) + 1e-14


def reduce(Xs, U, m):
    for X in Xs:
        for i in U:
            if i != m:
                X[:, i] = resid(X[:, i], X[:, m])


def prepare(Xs, measure):
    Xs = [np.array(X) for X in Xs]
    if measure == "kernel":
        Xs = [(X - X.mean(axis=0)) / X.std(axis=0) for X in Xs]
    return Xs, [X.std(axis=0) for X in Xs]


def degenerate(Xs, sd, U):
    return any((X[:, U].std(axis=0) < 1e-5 * s[U]).any() or not np.isfinite(X).all() for X, s in zip(Xs, sd))


def direct(Xs, order, pk=None, soft=False, measure="pwling"):
    order = [int(v) for v in order]
    Xs, sd = prepare(Xs, measure)
    U = sorted(order)
    must = set() if pk is None else before(pk)
    for step, m in enumerate(order):
        Uc, Vj = candidates(U, pk, soft, must)
        if not Uc:
            raise Unjudged("no candidate is left by prior knowledge")
        if degenerate(Xs, sd, U):
            raise Unjudged("deterministic relations")
        need(m in Uc, "order %s, step %d: %d is chosen, prior knowledge leaves %s", order, step, m, Uc)
        if len(Uc) > 1:
            sc = scores(Xs, U, Uc, Vj, measure)
            best = min(sc.values())
            need(not sc[m] > best + slack(best, measure) + slack(sc[m], measure),
                 "order %s, step %d: %d is chosen, the measures are %s (smallest is best)", order, step, m, brief(sc))
        reduce(Xs, U, m)
        U.remove(m)
    return len(order)


def long_pk(cfg, Xs, orders, given):
    T, p, L = len(Xs), Xs[0].shape[1], cfg["lags"]
    pk = np.zeros((T * p, T * p))
    for t in range(T):
        for tau in range(min(t, L) + 1):
            pk[t * p:(t + 1) * p, (t - tau) * p:(t - tau + 1) * p] = given[t, tau]
    must = before(pk)
    Z, sd = prepare([np.hstack(Xs)], "pwling")
    U, out = list(range(T * p)), []
    while U:
        Uc, _ = candidates(U, pk, False, must)
        if not Uc or degenerate(Z, sd, U):
            raise Unjudged("deterministic relations")
        m = Uc[0]
        if len(Uc) > 1:
            sc = scores(Z, U, Uc, [], "pwling")
            m = min(sc, key=sc.get)
            if any(k != m and sc[k] - sc[m] < slack(sc[k], "") + slack(sc[m], "") for k in sc):
                raise Unjudged("two candidates differ by rounding only")
        reduce(Z, U, m)
        U.remove(m)
        out.append(m)
    for t in range(L, T):
        want = [m - t * p for m in out if m // p == t]
        need([int(v) for v in orders[t]] == want, "order at time point %d is %s, the search gives %s", t, orders[t], want)
    return T - L


# ------------------------------------------------------------------ the other searches
def ica(X, order, seed, iters):
    from scipy.optimize import linear_sum_assignment
    from sklearn.decomposition import FastICA
    order = [int(v) for v in order]
    p = X.shape[1]
    f = FastICA(max_iter=iters, random_state=seed).fit(np.array(X))
    if f.n_iter_ >= iters:
        raise Unjudged("ICA has not converged")
    W0 = f.components_
    rs = np.random.RandomState(0)
    for k in range(6):
        W = W0 if k == 0 else W0 * (1 + 1e-5 * rs.uniform(-1, 1, W0.shape))
        _, col = linear_sum_assignment(1 / np.abs(W))
        P = np.zeros_like(W)
        P[col] = W
        B = np.eye(p) - P / np.diag(P)[:, None]
        pos = np.argsort(np.abs(B), axis=None)
        A = np.array(B)
        A.flat[pos[:p * (p + 1) // 2]] = 0
        for q in pos[p * (p + 1) // 2:]:
            if ref.is_acyclic(A):
                break
            A.flat[q] = 0
        at = {v: i for i, v in enumerate(order)}
        bad = [(i, j) for i in range(p) for j in range(p) if A[i, j] != 0 and at[j] > at[i]]
        if not bad:
            return p
        if k == 0:
            first = (bad, A)
    need(False, "order %s runs against the entries %s of the largest acyclic part of the estimate %s", order, first[0], brief(first[1]))


def no_ties(*cols):
    for v in cols:
        v = np.sort(v[:100])
        if (np.diff(v) < 1e-7 * max(v.std(), 1e-300)).any():
            raise Unjudged("ties in the data of an independence test")


def resit(cfg, X, order):
    order = [int(v) for v in order]
    reg = make_reg(cfg["reg"])
    S = sorted(order)
    for m in order[:0:-1]:
        st = {}
        for k in S:
            rest = [i for i in S if i != k]
            r = X[:, k] - reg.fit(X[:, rest], X[:, k]).predict(X[:, rest])
            no_ties(r)
            st[k] = ref.hsic(r, X[:, rest])[0]
        need(st[m] <= min(st.values()) * (1 + 1e-6) + 1e-9, "order %s: %d is taken for the last of %s, the dependences of the residuals are %s", order, m, S, brief(st))
        S.remove(m)
    return len(order)


def fcorr(a, b):
    from lingam.utils import f_correlation
    return float(f_correlation(a.reshape(-1, 1), b.reshape(-1, 1)))


def bottom_up(cfg, X, order, pk):
    from scipy.stats import chi2
    X = X - X.mean(axis=0)
    p = X.shape[1]
    groups = [[int(v) for v in k] if hasattr(k, "__iter__") else [int(k)] for k in order]
    tail = [g[0] for g in groups if len(g) == 1]
    U = list(range(p))
    must = set() if pk is None else before(pk)
    limit = cfg["alpha"] / (p - 1)
    done = 0
    hs = cfg["ind"] == "hsic"

    def evaluate(k):
        rest = [i for i in U if i != k]
        if cfg["reg"] is None:
            r = X[:, k] - X[:, rest] @ ref.ols(X[:, rest], X[:, k])
        else:
            r = X[:, k] - make_reg(cfg["reg"]).fit(X[:, rest], X[:, k]).predict(X[:, rest])
        if not hs:
            v = max(fcorr(X[:, i], r) for i in rest)
            return v, v
        t = [ref.hsic(X[:, i], r) for i in rest]
        if min(q for _, q in t) > 0:
            no_ties(r, *X[:, rest].T)
        if len(t) == 1:
            return t[0]
        stat = sum(np.inf if q == 0 else -2 * np.log(q) for _, q in t)
        return stat, float(chi2.sf(stat, df=2 * len(t)))

    while len(U) > 1:
        Uc = [i for i in U if not any((i, a) in must for a in U)]
        if len(Uc) != len(U):
            return done                      # (what the measures range over is not documented)
        ev = {k: evaluate(k) for k in U}
        best = min(ev.values())[0]
        near = [k for k in U if ev[k][0] <= best + 1e-6 * abs(best) + 1e-9]
        if len(near) > 1 and any(v[1] != 0 for v in ev.values()):
            raise Unjudged("two candidates differ by rounding only")
        val = ev[near[0]][1]
        edge = limit if hs else cfg["ic"]
        if edge == 0 or abs(val - edge) < 1e-6 * edge + 1e-12:
            raise Unjudged("rounding decides a test")
        reject = val < edge if hs else val >= edge
        if reject:
            need(sorted(groups[0]) == U if len(U) > 1 else True, "order %s: the search ends with %s undetermined (p %g, limit %g)", order, U, val, edge)
            return done + 1
        need(tail and tail[-1] == near[0] and (len(groups[0]) == 1 or near[0] not in groups[0]),
             "order %s: %d is the last of %s (%s), limit %g", order, near[0], U, brief(ev), edge)
        tail.pop()
        U.remove(near[0])
        done += 1
    need(tail == U, "order %s: %s remains for the top", order, U)
    return done + 1


def rcd(cfg, Xs, anc):
    from scipy.stats import chi2, pearsonr, shapiro
    p = Xs[0].shape[1]
    M = [set() for _ in range(p)]
    seen = {}

    def less(q, a):
        if abs(q - a) < 1e-6 * a:
            raise Unjudged("rounding decides a test")
        return q < a

    def fisher(qs):
        if len(qs) == 1:
            return qs[0]
        return float(chi2.sf(sum(np.inf if q == 0 else -2 * np.log(q) for q in qs), df=2 * len(qs)))

    def independent(Ys, rs, j):
        if cfg["ind"] == "fcorr":
            return less(max(fcorr(r, Y[:, j]) for Y, r in zip(Ys, rs)), 0.5)
        if cfg["bw"] == "mdbs":
            for Y, r in zip(Ys, rs):
                no_ties(r, Y[:, j])
        return not less(fisher([ref.hsic(r, Y[:, j], cfg["bw"])[1] for Y, r in zip(Ys, rs)]), cfg["ia"])

    def sink(Ys, i, rest):
        rs = [ref.resid_to(Y, i, rest) for Y in Ys]
        if all(independent(Ys, rs, j) for j in rest):
            return True
        if len(rest) == 1 or not cfg["ml"]:
            return False
        raise Unjudged("regression by minimising dependence")

    size = 1
    while True:
        changed = False
        for U in itertools.combinations(range(p), size + 1):
            H = set.intersection(*[M[j] for j in U])
            if seen.get(U) == H:
                continue
            Ys = [np.column_stack([ref.resid_to(X, j, H) if j in U else X[:, j] for j in range(p)]) for X in Xs]
            if cfg["sa"] < 1 and not all(less(fisher([float(shapiro(Y[:, j])[1]) for Y in Ys]), cfg["sa"]) for j in U):
                continue
            if not all(less(fisher([float(pearsonr(Y[:, i], Y[:, j])[1]) for Y in Ys]), cfg["ca"]) for i, j in itertools.combinations(U, 2)):
                continue
            sinks = []
            for i in U:
                rest = [j for j in U if j != i]
                if any(i in M[j] for j in rest) or set(rest) <= M[i]:
                    continue
                if sink(Ys, i, rest):
                    sinks.append(i)
            if len(sinks) == 1:
                new = M[sinks[0]] | (set(U) - set(sinks))
                changed = changed or new != M[sinks[0]]
                M[sinks[0]] = new
            seen[U] = H
        if changed:
            size = 1
        elif size < cfg["m"]:
            size += 1
        else:
            break
    got = [set(int(v) for v in a) for a in anc]
    need(got == M, "ancestors exposed are %s, the search gives %s", got, M)
    return 1 + sum(map(len, M))
