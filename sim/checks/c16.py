"""C16: the coefficients an estimator exposes are those of its documented regressions of the fitted data, given the exposed order."""
import copy
import hashlib
import pickle
import random

import numpy as np

from .. import reference as ref
from .. import seams
from ..core import Raised, Unset, Violation, attempt, brief, derive, digest, nothing, pristine
from ..models import MODELS, make_pk, make_reg
from .common import BAD, BASE_REAL, bad_args, do_fit, gen_fault, refill

ID = "C16"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 70000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupRCD",
         "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM", "RESIT", "VARLiNGAM", "LongitudinalLiNGAM"]
RULE = ("one run = one estimator driven through a seeded history (fits on other data and shapes, fits failing at an injected call, refilled "
        "buffers, rejected input, bootstraps, pickle/deepcopy restarts, pairs of estimators fitted in interleaved threads); whenever a "
        "fit succeeded, and after one that failed, everything exposed is compared with an independent regression of the fitted data "
        "given the exposed order; non-trivial: >=1 model with at least one edge compared; distinct by event-log hash")
STATE_MEASURE = "estimator x last operation x number of edges"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["numpy/stdlib global RNG position", "thread scheduler", "failing calls"]
ASSUMPTIONS = ["superfluous edges are removed by the adaptive lasso with BIC, as documented; coefficients that rounding of the data decides are accepted either way",
               "VAR pruning may regress on the configured or on the chosen number of lags"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier, names=None):
    m = MODELS[(names or NAMES)[index % len(names or NAMES)]]
    cfg = m.config(rng)
    if m.name == "HighDimDirectLiNGAM":
        cfg["adj"] = True
    if m.name == "VARMALiNGAM" and (tier == "quick" or rng.random() < 0.8) and rng.random() < 0.93:
        for _ in range(40):
            if cfg["ar"] is not None:
                break
            cfg = m.config(rng)
    pool = [m.dspec(rng, cfg) for _ in range(2)]
    q = dict(pool[0], seed=rng.randrange(1 << 30))
    q.pop("probe", None)
    pool.append(q)
    slow = m.name == "VARMALiNGAM" and cfg["ar"] is None
    ops = [{"op": "fit", "d": 0, "s": rng.randrange(1 << 30), "f": None, "reuse": False}]
    for _ in range(rng.randint(1, 4) if not slow else 0):
        u = rng.random()
        s = rng.randrange(1 << 30)
        d = rng.randrange(len(pool))
        f = gen_fault(rng) if rng.random() < 0.45 else None
        if u < 0.55:
            ops.append({"op": "fit", "d": d, "s": s, "f": f, "reuse": rng.random() < 0.4})
        elif u < 0.7:
            ops.append({"op": "pair", "ds": [d, rng.randrange(len(pool))], "s": s})
        elif u < 0.78 and m.has_boot:
            ops.append({"op": "boot", "d": d, "s": s, "n": 1})
        elif u < 0.9:
            ops.append({"op": "restart", "how": rng.choice(["pickle", "deepcopy"])})
        else:
            ops.append({"op": "bad", "how": rng.choice(BAD)})
    if ops[-1]["op"] in ("restart", "bad", "boot"):
        ops.append({"op": "fit", "d": rng.randrange(len(pool)), "s": rng.randrange(1 << 30), "f": None, "reuse": rng.random() < 0.4})
    return {"model": m.name, "cfg": cfg, "pool": pool, "ops": ops, "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng)}


def shrink(case):
    for i, o in enumerate(case["ops"]):
        for k, v in (("f", None), ("reuse", False)):
            if o.get(k):
                c = copy.deepcopy(case)
                c["ops"][i][k] = v
                yield c
    for i, d in enumerate(case["pool"]):
        if d["form"] != "nd":
            c = copy.deepcopy(case)
            c["pool"][i]["form"] = "nd"
            yield c


# ------------------------------------------------------------------ what the exposed model must be
class Mismatch(Exception):
    pass


class Unjudged(Exception):
    """rounding decides, or nothing is documented"""


def need(ok, msg, *a):
    if not ok:
        raise Mismatch(msg % a)


def close(a, b, rtol=1e-6, atol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def ordered(X, order, B, pk=None, what="adjacency matrix"):
    """rows of B are the pruned regressions on the predecessors in the order (groups of undetermined order flattened)"""
    X, B = np.asarray(X, dtype=float), np.asarray(B, dtype=float)
    p = X.shape[1]
    before = []
    for k in order:
        group = [int(v) for v in k] if hasattr(k, "__iter__") else [int(k)]
        for t in group:
            if len(group) > 1:
                want = np.zeros(p)
                want[[v for v in group if v != t]] = np.nan
                need(close(B[t], want), "%s row %d is %s, of a group of undetermined order", what, t, brief(B[t]))
                continue
            preds = [v for v in before if pk is None or pk[t, v] != 0]
            rest = [v for v in range(p) if v not in preds]
            need(not B[t, rest].any(), "%s row %d has the entries %s outside its predecessors %s", what, t, brief(B[t]), preds)
            if preds:
                ok, want = ref.same_regression(X, preds, t, B[t, preds])
                need(ok, "%s[%d, %s] is %s, the regression gives %s", what, t, preds, brief(B[t, preds]), brief(want))
        before += group
    return int((np.nan_to_num(B) != 0).sum())


def rcd(Xs, anc, Bs, alpha):
    p = Xs[0].shape[1]
    M = [set(int(v) for v in a) for a in anc]
    Bs = [np.asarray(B, dtype=float) for B in Bs]
    n = 0
    P = [set() for _ in range(p)]
    for i in range(p):
        for j in M[i]:
            q = ref.correlation_p([(ref.resid_to(X, j, M[i] & M[j]), ref.resid_to(X, i, M[i] - {j})) for X in Xs])
            is_parent = all(not np.isnan(B[i, j]) and B[i, j] != 0 for B in Bs)
            need(is_parent == (q < alpha) or abs(q - alpha) < 1e-9 * alpha, "variable %d is %sa parent of %d, its correlation test has p=%g", j, "" if is_parent else "not ", i, q)
            if is_parent:
                P[i].add(j)
    for B, X in zip(Bs, Xs):
        for i in range(p):
            pa = sorted(P[i])
            if pa:
                want = ref.ols(X[:, pa], X[:, i])
                need(close(B[i, pa], want), "coefficients [%d, %s] are %s, the regression gives %s", i, pa, brief(B[i, pa]), brief(want))
                n += len(pa)
    for i in range(p):
        for j in range(i):
            if j in P[i] or i in P[j]:
                continue
            q = ref.correlation_p([(ref.resid_to(X, i, P[i]), ref.resid_to(X, j, P[j])) for X in Xs])
            for B in Bs:
                if abs(q - alpha) > 1e-9 * alpha:
                    w = np.nan if q < alpha else 0.0
                    need(close(B[i, j], w) and close(B[j, i], w), "entries (%d,%d) are %s and %s, the residuals' correlation test has p=%g (alpha %g)",
                         i, j, B[i, j], B[j, i], q, alpha)
                    n += bool(np.isnan(w))
    return n


def lagged(X, order, B, lags, used, what):
    """pruned VAR: rows are the regressions on contemporaneous predecessors and all lagged values"""
    n, p = X.shape
    cols = [X[lags - k:n - k] for k in range(lags + 1)]
    Z = np.hstack(cols)
    B = np.asarray(B, dtype=float)
    for a, t in enumerate(order):
        t = int(t)
        preds = [int(v) for v in order[:a]] + list(range(p, p * (lags + 1)))
        got = np.hstack([B[k][t] for k in range(used + 1)] + [np.zeros(p)] * (lags - used))
        want = ref.adaptive_lasso(Z, preds, t)
        full = np.zeros(p * (lags + 1))
        full[preds] = want
        full[p * (used + 1):] = 0
        if not close(got, full, atol=1e-7):
            rs, hit = np.random.RandomState(1), False
            for k in range(6):
                alt = np.zeros(p * (lags + 1))
                alt[preds] = ref.adaptive_lasso(Z * (1 + 10.0 ** (-13 + k // 2) * rs.uniform(-1, 1, Z.shape)), preds, t)
                alt[p * (used + 1):] = 0
                hit = hit or close(got, alt, atol=1e-7)
            need(hit, "%s row %d is %s, the regression gives %s", what, t, brief(got), brief(full))


def judge_var(cfg, X, s):
    B, R, order = np.asarray(s["adjacency_matrices_"], dtype=float), np.asarray(s["residuals_"], dtype=float), s["causal_order_"]
    n, p = X.shape
    used = len(B) - 1
    lags = cfg["lags"]
    if cfg["ar"] is not None:
        ar = np.random.RandomState(cfg["ar"]).uniform(-0.4, 0.4, (lags, p, p))
        need(used == lags, "%d lags exposed, %d given", used, lags)
        M = list(ar)
        E = X[lags:] - sum(X[lags - 1 - k:n - 1 - k] @ ar[k].T for k in range(lags))
        need(close(R, E), "residuals %s are not those of the given coefficients: %s", brief(R), brief(E))
    else:
        if cfg["crit"]:
            c = {k: ref.var_criterion(X, k, cfg["crit"]) for k in range(1, lags + 1)}
            need(used in c and c[used] <= min(c.values()) + 1e-9, "%d lags exposed, %s by lags is %s", used, cfg["crit"], c)
        else:
            need(used == lags, "%d lags exposed, %d configured", used, lags)
        M, E = ref.var_ls(X, used)
        need(close(R, E, rtol=1e-5, atol=1e-7), "residuals %s are not those of the vector autoregression: %s", brief(R), brief(E))
    if not cfg["prune"]:
        edges = ordered(R, order, B[0], what="B0")
        for k in range(used):
            want = (np.eye(p) - B[0]) @ M[k]
            need(close(B[k + 1], want, rtol=1e-5, atol=1e-7), "B%d is %s, the equations give %s", k + 1, brief(B[k + 1]), brief(want))
        return edges
    try:
        lagged(X, order, B, lags, used, "pruned")
    except Mismatch:
        if used == lags:
            raise
        lagged(X, order, B, used, used, "pruned")
    return int((B != 0).sum())


def judge_varma(cfg, X, s):
    psi, omega = [np.asarray(v, dtype=float) for v in s["adjacency_matrices_"]]
    R, order = np.asarray(s["residuals_"], dtype=float), s["causal_order_"]
    n, p = X.shape
    a, b = len(psi) - 1, len(omega)
    if cfg["prune"] or cfg["ar"] is None:
        if not cfg["prune"]:
            return ordered(R, order, psi[0], what="psi0")
        ee0 = None
        # the contemporaneous model of the residuals, used to form the errors
        B0 = np.zeros((p, p))
        for k in range(1, p):
            B0[int(order[k]), [int(v) for v in order[:k]]] = ref.adaptive_lasso(R, order[:k], int(order[k]))
        ee0 = R @ (np.eye(p) - B0).T
        Z = np.hstack([np.roll(X, k, axis=0) for k in range(1 + a)] + [np.roll(ee0, k + 1, axis=0) for k in range(b)])
        W = np.hstack(list(psi) + list(omega))
        for k, t in enumerate(order):
            later = [int(v) for v in order[k:]]
            preds = [j for j in range(Z.shape[1]) if j not in later]
            ok, want = ref.same_regression(Z, preds, int(t), W[int(t), preds])
            need(ok, "row %d is %s, the regression gives %s", t, brief(W[int(t)]), brief(want))
        return int((W != 0).sum())
    rs = np.random.RandomState(cfg["ar"])
    ar = rs.uniform(-0.4, 0.4, (cfg["order"][0], cfg["p"], cfg["p"]))
    ma = rs.uniform(-0.3, 0.3, (cfg["order"][1], cfg["p"], cfg["p"]))
    need((a, b) == (len(ar), len(ma)), "orders %s exposed, %s given", (a, b), (len(ar), len(ma)))
    st = max(a, b)
    need(R.shape == (n - st, p), "residuals have shape %s", R.shape)
    for t in range(b, len(R)):
        e = X[t + st] - sum(ar[k] @ X[t + st - 1 - k] for k in range(a)) - sum(ma[k] @ R[t - 1 - k] for k in range(b))
        need(close(R[t], e, rtol=1e-5, atol=1e-7), "residual %d is %s, the given coefficients give %s", t, brief(R[t]), brief(e))
    edges = ordered(R, order, psi[0], what="psi0")
    A = np.eye(p) - psi[0]
    for k in range(a):
        need(close(psi[k + 1], A @ ar[k], rtol=1e-5), "psi%d is %s, the equations give %s", k + 1, brief(psi[k + 1]), brief(A @ ar[k]))
    for k in range(b):
        want = A @ ma[k] @ np.linalg.inv(A)
        need(close(omega[k], want, rtol=1e-5), "omega%d is %s, the equations give %s", k + 1, brief(omega[k]), brief(want))
    return edges


def judge_long(cfg, Xs, s, pk):
    B, orders = np.asarray(s["adjacency_matrices_"], dtype=float), s["causal_orders_"]
    T, p, L = len(Xs), Xs[0].shape[1], cfg["lags"]
    need(B.shape == (T, L + 1, p, p), "shape %s", B.shape)
    edges = 0
    for t in range(L):
        need(bool(np.isnan(B[t]).all()), "time point %d has fewer than %d predecessors, exposed %s", t, L, brief(B[t]))
    for t in range(L, T):
        Z = np.hstack([Xs[t - k] for k in range(L + 1)])
        if pk is None:
            R = np.asarray(s["residuals_"], dtype=float)[t]
            C = np.array([ref.ols(Z[:, p:], Xs[t][:, j]) for j in range(p)])
            E = Xs[t] - Z[:, p:] @ C.T
            need(close(R - R.mean(axis=0), E - E.mean(axis=0), rtol=1e-5, atol=1e-7), "residuals at %d are %s, the regression gives %s", t, brief(R), brief(E))
            edges += ordered(R, orders[t], B[t, 0], what="B(%d,%d)" % (t, t))
            for k in range(L):
                want = (np.eye(p) - B[t, 0]) @ C[:, p * k:p * (k + 1)]
                need(close(B[t, k + 1], want, rtol=1e-5, atol=1e-7), "B(%d,%d) is %s, the equations give %s", t, t - k - 1, brief(B[t, k + 1]), brief(want))
        else:
            W = np.hstack(list(B[t]))
            order = [int(v) for v in orders[t]]
            for a, i in enumerate(order):
                preds = [j for j in order[:a] if pk[t, 0, i, j] != 0]
                preds += [p * (k + 1) + j for k in range(L) for j in range(p) if pk[t, k + 1, i, j] != 0]
                rest = [j for j in range(p * (L + 1)) if j not in preds]
                need(not W[i, rest].any(), "row (%d,%d) is %s, allowed %s", t, i, brief(W[i]), preds)
                if preds:
                    ok, want = ref.same_regression(Z, preds, i, W[i, preds])
                    need(ok, "row (%d,%d) %s is %s, the regression gives %s", t, i, preds, brief(W[i, preds]), brief(want))
            edges += int((W != 0).sum())
    return edges


def judge_resit(cfg, X, s):
    B, order = np.asarray(s["adjacency_matrix_"], dtype=float), [int(v) for v in s["causal_order_"]]
    p = X.shape[1]
    reg = make_reg(cfg["reg"])
    for a, k in enumerate(order):
        pa = sorted(order[:a])
        for l in list(pa):
            rest = [i for i in pa if i != l]
            if not rest:
                continue
            res = X[:, k] - reg.fit(X[:, rest], X[:, k]).predict(X[:, rest])
            if ref.hsic_p(res, X[:, rest]) > 0.01:
                pa.remove(l)
        want = np.zeros(p)
        want[pa] = 1
        need(close(B[k], want), "row %d is %s, removing superfluous edges leaves the parents %s", k, brief(B[k]), pa)
    return int(B.sum())


def arr(x):
    return np.array(x, dtype=float)


def judge(m, cfg, args, s):
    """-> number of edges compared; raises Mismatch"""
    nm = m.name
    with np.errstate(all="ignore"):
        if nm in ("DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "BottomUpParceLiNGAM"):
            pk = None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
            return ordered(arr(args[0]), s["causal_order_"], s["adjacency_matrix_"], pk)
        if nm == "MultiGroupDirectLiNGAM":
            pk = None if cfg.get("pk") is None else make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
            need(len(s["adjacency_matrices_"]) == len(args[0]), "%d matrices for %d groups", len(s["adjacency_matrices_"]), len(args[0]))
            return sum(ordered(arr(X), s["causal_order_"], B, pk, "group %d" % g) for g, (X, B) in enumerate(zip(args[0], s["adjacency_matrices_"])))
        if nm == "RCD":
            return rcd([arr(args[0])], unset(s["ancestors_list_"]), [s["adjacency_matrix_"]], cfg["ca"])
        if nm == "MultiGroupRCD":
            need(len(s["adjacency_matrices_"]) == len(args[0]), "%d matrices for %d groups", len(s["adjacency_matrices_"]), len(args[0]))
            return rcd([arr(X) for X in args[0]], unset(s["ancestors_list_"]), s["adjacency_matrices_"], cfg["ca"])
        if nm in ("VARLiNGAM", "VARMALiNGAM") and np.abs(arr(args[0])).max() > 45:
            raise np.linalg.LinAlgError("explosive series")
        if nm == "VARLiNGAM":
            return judge_var(cfg, arr(args[0]), s)
        if nm == "VARMALiNGAM":
            return judge_varma(cfg, arr(args[0]), s)
        if nm == "RESIT":
            return judge_resit(cfg, arr(args[0]), s)
        return judge_long(cfg, [arr(X) for X in args[0]], s, m.pk(cfg))


def unset(lst):
    """frozen sets back to collections"""
    return [v[1] if isinstance(v, tuple) else v for v in lst]


def exposed(m, est, cfg):
    s = m.snap(est)
    for k, v in s.items():
        if isinstance(v, Unset) and not (k == "residuals_" and cfg.get("pk") is not None):
            return None
    return s


def enough(d):
    return d["n"] >= 4 * d["p"] * (3 if d.get("k") else 1) + 8


def run(case, ctx):
    drive(case, ctx, judge, "coefficients-not-of-the-fitted-data")


def drive(case, ctx, judge, cls):
    m = MODELS[case["model"]]
    cfg, pool = case["cfg"], case["pool"]
    est = m.make(cfg)
    prev, held, last = None, None, "new"        # held: copy of the data of the fit now exposed
    compared = 0

    def check(e, candidates, what):
        nonlocal compared
        s = exposed(m, e, cfg)
        if s is None:
            ctx.count("incomplete model not compared")
            return
        why = []
        for args in candidates:
            try:
                k = judge(m, cfg, args, s)
            except Mismatch as x:
                why.append(str(x))
                continue
            except np.linalg.LinAlgError:
                ctx.count("model not compared: singular data")
                return
            except Unjudged as x:
                ctx.count("model not compared: %s" % x)
                return
            except (IndexError, KeyError, TypeError, ValueError) as x:
                why.append("malformed model (%r)" % x)
                continue
            ctx.count("models compared")
            ctx.states.add("%s|%s|%d" % (m.name, what, min(k, 9)))
            compared += k > 0
            return
        raise Violation(cls, "%s cfg=%s after %s: %s" % (m.name, cfg, what, "; nor of the earlier data: ".join(why)))

    for n_op, o in enumerate(case["ops"]):
        op = o["op"]
        if op == "fit":
            d = pool[o["d"]]
            args = m.args(cfg, d)
            if o["reuse"]:
                args = refill(prev, args)
            prev = args
            mine = copy.deepcopy(args)
            out, fired = do_fit(m, est, cfg, d, o["s"], o["f"], ctx, args=args)
            ctx.ev(n_op, "fit", out if isinstance(out, str) else out.type, digest(m.snap(est)))
            if out == "ok":
                held = (mine, d)
                if enough(d):
                    check(est, [mine], "fit" if last == "new" else "fit after " + last)
                last = "fit"
            else:
                last = "failed fit"
                if held == "?" or not enough(d) or (held and not enough(held[1])):
                    continue
                cands = [mine] + ([held[0]] if held else [])
                check(est, [c for c in cands if shape_ok(m, est, c)], last)
        elif op == "pair":
            es = [m.make(cfg) for _ in o["ds"]]
            aa = [m.args(cfg, pool[k]) for k in o["ds"]]
            mine = copy.deepcopy(aa)
            sch = seams.Sched(derive(case["sched"], n_op), case["policy"])
            outs = {}
            for t in range(2):
                sch.add(lambda t=t: outs.__setitem__(t, attempt(lambda: nothing(m.fit(es[t], aa[t])))), derive(o["s"], t))
            sch.run()
            ctx.steps += sch.events
            if sch.switches:
                ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
                ctx.fault("preemption", sch.switches)
            for t in range(2):
                if not isinstance(outs.get(t), Raised) and enough(pool[o["ds"][t]]):
                    check(es[t], [mine[t]], "fit while another estimator is fitted in a second thread")
            ctx.ev(n_op, "pair", digest(m.snap(es[0])), digest(m.snap(es[1])))
        elif op == "boot":
            seams.set_rng(o["s"])
            out = attempt(lambda: nothing(m.boot(est, m.args(cfg, pool[o["d"]]), o["n"], cfg)))
            held, last = "?", "bootstrap"
            ctx.ev(n_op, "boot", type(out).__name__)
        elif op == "restart":
            try:
                est = pickle.loads(pickle.dumps(est)) if o["how"] == "pickle" else copy.deepcopy(est)
                ctx.fault("restart:" + o["how"])
                if held not in (None, "?") and last == "fit" and enough(held[1]):
                    check(est, [held[0]], "restart")
            except Violation:
                raise
            except Exception:
                ctx.count("restart unsupported")
        else:
            out = attempt(lambda: nothing(m.fit(est, bad_args(m, o["how"]))))
            if isinstance(out, Raised):
                ctx.fault("rejected-input:" + o["how"])
                if held not in (None, "?"):
                    held = held if shape_ok(m, est, held[0]) else "?"
            else:
                held = "?"
            last = "rejected fit"
            ctx.ev(n_op, "bad", type(out).__name__)
    ctx.nontrivial = compared >= 1


def shape_ok(m, est, args):
    s = m.snap(est)
    A = s.get("adjacency_matrices_", s.get("adjacency_matrix_"))
    if isinstance(A, Unset):
        return True
    X = args[0]
    if m.kind in ("groups", "groups_hidden", "long"):
        return len(A) == len(X) and np.shape(A[0])[-1] == np.shape(X[0])[1]
    if m.name == "VARMALiNGAM":
        A = A[0]
    return np.shape(A)[-1] == np.shape(X)[1]
