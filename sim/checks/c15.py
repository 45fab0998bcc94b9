"""C15: the effects and p-values a fitted estimator reports are those of the model it exposes at that moment."""
import copy
import hashlib
import pickle
import random

import numpy as np

from .. import reference as ref
from .. import seams
from ..core import Raised, Violation, attempt, brief, derive, digest, nothing, pristine
from ..models import MODELS
from .common import BAD, BASE_REAL, bad_args, do_fit, gen_fault, refill

ID = "C15"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 70000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM", "RCD", "MultiGroupRCD",
         "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM"]
RULE = ("one run = one estimator driven through a seeded history (fits, failed and interrupted fits, bootstraps, rejected input, "
        "pickle/deepcopy restarts) and, in between, asked for total effects and error-independence p-values about the fitted or other "
        "data (some questions failing at an injected call, buffers refilled by the caller, or from two interleaved threads); every answer is compared with an "
        "independent computation from the model the estimator exposes at that moment; non-trivial: >=2 answers compared after >=2 "
        "operations; distinct by event-log hash")
STATE_MEASURE = "estimator x question kind x last operation before the question"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["numpy/stdlib global RNG position", "thread scheduler", "failing calls"]
ASSUMPTIONS = ["total effects are those of the library's documented definition (regression on the source and its parents; sum over directed paths)",
               "the bandwidth of the HSIC test is the median distance over at most 100 samples, as documented"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    m = MODELS[NAMES[index % len(NAMES)]]
    cfg = m.config(rng)
    if m.name == "HighDimDirectLiNGAM":
        cfg["adj"] = True
    if m.name == "VARMALiNGAM" and (tier == "quick" or rng.random() < 0.8):
        cfg.update(ar=rng.randrange(1 << 30), p=rng.choice([2, 2, 3]), prune=False, crit=None)
    if m.name in ("RCD", "MultiGroupRCD"):
        cfg["ml"] = False
    pool = [m.dspec(rng, cfg) for _ in range(2)]
    q = dict(pool[0], seed=rng.randrange(1 << 30))
    q.pop("probe", None)
    pool.append(q)
    if m.name not in ("LongitudinalLiNGAM", "MultiGroupDirectLiNGAM", "MultiGroupRCD"):
        pool.append(dict(q, n=q["n"] + rng.choice([-3, 5])))
    ops = [{"op": "fit", "d": 0, "s": rng.randrange(1 << 30), "f": None, "reuse": False}]
    for _ in range(rng.randint(1, 5)):
        u = rng.random()
        s = rng.randrange(1 << 30)
        d = rng.randrange(len(pool))
        f = gen_fault(rng) if rng.random() < 0.4 else None
        if u < 0.45:
            ops.append(ask_op(rng, pool))
        elif u < 0.7:
            ops.append({"op": "fit", "d": d, "s": s, "f": f, "reuse": rng.random() < 0.4})
        elif u < 0.8 and m.name != "VARMALiNGAM":
            ops.append({"op": "boot", "d": d, "s": s, "n": rng.randint(1, 2), "f": f})
        elif u < 0.9:
            ops.append({"op": "restart", "how": rng.choice(["pickle", "deepcopy"])})
        else:
            ops.append({"op": "bad", "how": rng.choice(BAD)})
    ops.append(ask_op(rng, pool))
    return {"model": m.name, "cfg": cfg, "pool": pool, "ops": ops, "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng)}


def ask_op(rng, pool):
    return {"op": "ask", "d": rng.randrange(len(pool)), "ks": [rng.randrange(1 << 20) for _ in range(rng.randint(2, 6))],
            "f": gen_fault(rng) if rng.random() < 0.25 else None, "th": rng.random() < 0.2, "reuse": rng.random() < 0.3,
            "s": rng.randrange(1 << 30)}


def shrink(case):
    for i, o in enumerate(case["ops"]):
        for k, v in (("f", None), ("th", False), ("reuse", False)):
            if o.get(k):
                c = copy.deepcopy(case)
                c["ops"][i][k] = v
                yield c
        if len(o.get("ks", [])) > 1:
            for j in range(len(o["ks"])):
                c = copy.deepcopy(case)
                c["ops"][i]["ks"].pop(j)
                yield c


# ------------------------------------------------------------------ what the exposed model implies
def arr(X):
    return np.array(X, dtype=float)


def questions(m, est, cfg, d, args):
    """[(label, ask, reference thunk)] for the model exposed right now."""
    p = d["p"]
    nm = m.name
    qs = []
    if nm in ("DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "BottomUpParceLiNGAM", "RCD"):
        A = arr(est.adjacency_matrix_)
        X = args[0]
        X0 = arr(X)
        hidden = nm in ("BottomUpParceLiNGAM", "RCD")

        def nanrow(i):
            return hidden and bool(np.isnan(A[i]).any())

        def pvals():
            skip = set(np.argwhere(np.isnan(A)).ravel().tolist())
            return ref.p_matrix(X0 - X0 @ np.nan_to_num(A).T, skip)
        qs.append(("p_values", lambda: est.get_error_independence_p_values(X), pvals))
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(X, i, j),
                               lambda i=i, j=j: np.nan if nanrow(i) else ref.regression_effect(X0, A, i, j)))
                    if hidden:
                        qs.append(("te2(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(i, j),
                                   lambda i=i, j=j: np.nan if nanrow(i) else ref.total_effect_paths(A, i, j)))
        return qs
    if nm in ("MultiGroupDirectLiNGAM", "MultiGroupRCD"):
        As = [arr(a) for a in est.adjacency_matrices_]
        Xs = args[0]
        X0 = [arr(x) for x in Xs]

        def groups(f, i):
            out = []
            for X, A in zip(X0, As):
                if np.isnan(A[i]).any():
                    return out       # the library stops at the first group in which the source is confounded
                out.append(f(X, A))
            return out

        def pvals():
            out = [ref.p_matrix(X - X @ np.nan_to_num(A).T, set(np.argwhere(np.isnan(A)).ravel().tolist())) for X, A in zip(X0, As)]
            return None if any(P is None for P in out) else np.array(out)
        qs.append(("p_values", lambda: est.get_error_independence_p_values(Xs), pvals))
        for i in range(p):
            for j in range(p):
                if i != j:
                    qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(Xs, i, j),
                               lambda i=i, j=j: groups(lambda X, A: ref.regression_effect(X, A, i, j), i)))
                    qs.append(("te2(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect2(i, j),
                               lambda i=i, j=j: groups(lambda X, A: ref.total_effect_paths(A, i, j), i)))
        return qs
    if nm in ("VARLiNGAM", "VARMALiNGAM"):
        am = est.adjacency_matrices_
        psi = arr(am if nm == "VARLiNGAM" else am[0])
        omega = None if nm == "VARLiNGAM" else arr(am[1])
        L = len(psi) - 1
        X = args[0]
        X0, R = arr(X), arr(est.residuals_)
        qs.append(("p_values", lambda: est.get_error_independence_p_values(), lambda: ref.p_matrix(R @ (np.eye(p) - psi[0]).T)))
        wide = np.hstack(list(psi))
        square = np.vstack([wide, np.zeros((p * L, p * (L + 1)))])
        for i in range(p):
            for j in range(p):
                for lag in range(L + 1):
                    if i == j and lag == 0:
                        continue
                    qs.append(("te2(%d,%d,%d)" % (i, j, lag), lambda i=i, j=j, lag=lag: est.estimate_total_effect2(p, i, j, lag),
                               lambda i=i, j=j, lag=lag: ref.total_effect_paths(square, i + p * lag, j)))
                    if nm == "VARLiNGAM":
                        def te(i=i, j=j, lag=lag):
                            Z = np.hstack([np.roll(X0, k, axis=0) for k in range(1 + L + lag)])
                            pr = [i + p * lag] + [k + p * lag for k in ref.parents_of(wide[i])]
                            return float(ref.ols(Z[:, pr], X0[:, j])[0])
                        qs.append(("te(%d,%d,%d)" % (i, j, lag), lambda i=i, j=j, lag=lag: est.estimate_total_effect(X, i, j, lag), te))
                    elif lag == 0:
                        def tem(i=i, j=j):
                            Z = np.hstack([np.roll(X0, k, axis=0) for k in range(1 + L)] +
                                          [np.roll(E0, k + 1, axis=0) for k in range(len(omega))])
                            pr = [i] + ref.parents_of(np.hstack([wide[i]] + [o[i] for o in omega]))
                            return float(ref.ols(Z[:, pr], X0[:, j])[0])
                        E0 = np.random.RandomState(d["seed"] & 0xFFFF).uniform(-1, 1, X0.shape)
                        qs.append(("te(%d,%d)" % (i, j), lambda i=i, j=j: est.estimate_total_effect(X, E0, i, j), tem))
        return qs
    A = arr(est.adjacency_matrices_)
    Xs = args[0]
    X0 = [arr(x) for x in Xs]
    T, L = d["k"], cfg["lags"]
    if est.residuals_ is not None:
        R = arr(est.residuals_)

        def pvals():
            P = np.full((T, p, p), np.nan)
            for t in range(L, T):
                one = ref.p_matrix(R[t] @ (np.eye(p) - A[t, 0]).T)
                if one is None:
                    return None
                P[t] = one
            return P

        def got():
            P = np.array(est.get_error_independence_p_values(), dtype=float)
            if P.shape == (T, p, p):
                P[:L] = np.nan      # time points without estimates
            return P
        qs.append(("p_values", got, pvals))
    for t in range(L, T):
        for i in range(p):
            for j in range(p):
                for u in range(t, T):
                    if u == t and i == j:
                        continue

                    def te(t=t, i=i, u=u, j=j):
                        Z = np.hstack([X0[t - k] for k in range(L + 1)])
                        pr = [i] + ref.parents_of(np.hstack(list(A[t]))[i])
                        return float(ref.ols(Z[:, pr], X0[u][:, j])[0])
                    qs.append(("te(%d,%d;%d,%d)" % (t, i, u, j), lambda t=t, i=i, u=u, j=j: est.estimate_total_effect(Xs, t, i, u, j), te))
                    qs.append(("te2(%d,%d;%d,%d)" % (t, i, u, j), lambda t=t, i=i, u=u, j=j: est.estimate_total_effect2(t, i, u, j),
                               lambda t=t, i=i, u=u, j=j: ref.total_effect_paths(ref.expand_long(A, t, u), i, p * (u - t) + j)))
    return qs


def close(v, want):
    try:
        v, want = np.asarray(v, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return False
    return v.shape == want.shape and bool(np.allclose(v, want, rtol=1e-5, atol=1e-7, equal_nan=True))


def usable(m, est, cfg, d, fitted):
    """the estimator exposes a complete model for data of this shape"""
    if d["n"] < 4 * d["p"] + 8:
        return False        # too few samples to determine the regressions
    snap = m.snap(est)
    need = [a for a in m.attrs if a != "residuals_" or m.name != "LongitudinalLiNGAM"]
    if any(type(snap[a]).__name__ == "Unset" for a in need):
        return False
    if m.name in ("MultiGroupDirectLiNGAM", "MultiGroupRCD"):
        return len(snap["adjacency_matrices_"]) == d["k"] and np.shape(snap["adjacency_matrices_"][0]) == (d["p"],) * 2
    if m.name == "VARMALiNGAM":
        return np.shape(snap["adjacency_matrices_"][0])[-1] == d["p"]
    if m.name == "LongitudinalLiNGAM":
        # the data asked about must have the shape of the fitted data
        return fitted is not None and (d["n"], d["k"], d["p"]) == fitted and np.shape(snap["adjacency_matrices_"])[:1] == (d["k"],)
    return np.shape(snap["adjacency_matrices_" if "adjacency_matrices_" in snap else "adjacency_matrix_"])[-1] == d["p"]


def run(case, ctx):
    m = MODELS[case["model"]]
    cfg, pool = case["cfg"], case["pool"]
    est = m.make(cfg)
    prev, last, done, compared = None, "new", 0, 0
    fitted = None

    def shape_of(d):
        return (d["n"], d.get("k"), d["p"])
    for n_op, o in enumerate(case["ops"]):
        op = o["op"]
        if op == "fit":
            d = pool[o["d"]]
            args = m.args(cfg, d)
            if o["reuse"]:
                args = refill(prev, args)
            prev = args
            out, fired = do_fit(m, est, cfg, d, o["s"], o["f"], ctx, args=args)
            if out == "ok":
                fitted = shape_of(d)
            last = "fit" if not fired else "failed fit"
            ctx.ev(n_op, "fit", out if isinstance(out, str) else out.type, digest(m.snap(est)))
        elif op == "boot":
            d = pool[o["d"]]
            seams.set_rng(o["s"])
            k = None
            if o["f"]:
                def dryrun():
                    with seams.CallTrace(record=True) as dry:
                        attempt(lambda: nothing(m.boot(m.make(cfg), m.args(cfg, d), o["n"], cfg)))
                    return seams.Calls(dry)
                k = seams.pick_call(pristine(dryrun), random.Random(o["f"]["pick"]))
            with seams.CallTrace(fail_at=k, kind=o["f"]["kind"] if o["f"] else None) as tr:
                out = attempt(lambda: nothing(m.boot(est, m.args(cfg, d), o["n"], cfg)))
            ctx.steps += tr.n
            if tr.fired:
                ctx.fault("call-fails-in-bootstrap:" + o["f"]["kind"])
            if not isinstance(out, Raised) or fitted != shape_of(d):
                fitted = None if isinstance(out, Raised) else shape_of(d)
            last = "bootstrap" if not tr.fired else "failed bootstrap"
            ctx.ev(n_op, "boot", type(out).__name__)
        elif op == "restart":
            try:
                est = pickle.loads(pickle.dumps(est)) if o["how"] == "pickle" else copy.deepcopy(est)
                ctx.fault("restart:" + o["how"])
            except Exception:
                ctx.count("restart unsupported")
        elif op == "bad":
            out = attempt(lambda: nothing(m.fit(est, bad_args(m, o["how"]))))
            if isinstance(out, Raised):
                ctx.fault("rejected-input:" + o["how"])
                last = "rejected fit"
            else:
                last, fitted = "odd fit", None
            ctx.ev(n_op, "bad", type(out).__name__)
        else:
            d = pool[o["d"]]
            if not usable(m, est, cfg, d, fitted):
                ctx.count("question not asked: no model exposed for data of this shape")
                continue
            args = m.args(cfg, d)
            if o["reuse"]:
                args = refill(prev, args)
                prev = args
            qs = questions(m, est, cfg, d, args)
            if not qs:
                continue
            todo = [qs[k % len(qs)] for k in o["ks"]]
            want = [pristine(q[2]) for q in todo]

            def judge(q, v, w, how):
                if w is None:
                    ctx.count("p-values not compared: equal values leave the bandwidth to rounding")
                    return
                if isinstance(v, Raised):
                    raise Violation("question-fails", "%s %s after %s (%s): raised %r, the exposed model gives %s" % (m.name, q[0], last, how, v, brief(w)))
                if not close(v, w):
                    raise Violation("answer-not-of-the-exposed-model", "%s cfg=%s %s after %s (%s) is %s, the exposed model gives %s" % (
                        m.name, cfg, q[0], last, how, brief(v), brief(w)))
                ctx.count("answers compared")
                ctx.states.add("%s|%s|%s" % (m.name, q[0].split("(")[0], last))
            if o["th"]:
                sch = seams.Sched(derive(case["sched"], n_op), case["policy"])
                got = {}

                def body(t):
                    for k, q in enumerate(todo):
                        if k % 2 == t:
                            got[k] = attempt(q[1])
                for t in (0, 1):
                    sch.add(lambda t=t: body(t), derive(o["s"], t))
                sch.run()
                ctx.steps += sch.events
                if sch.switches:
                    ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
                    ctx.fault("preemption", sch.switches)
                for k in sorted(got):
                    judge(todo[k], got[k], want[k], "two threads asking")
                    compared += 1
            else:
                for k, (q, w) in enumerate(zip(todo, want)):
                    seams.set_rng(derive(o["s"], k))
                    if o["f"] and k % 2 == 0:
                        def dry():
                            with seams.CallTrace(record=True) as tr:
                                attempt(q[1])
                            return seams.Calls(tr)
                        at = seams.pick_call(pristine(dry), random.Random(o["f"]["pick"] + k))
                        with seams.CallTrace(fail_at=at, kind=o["f"]["kind"]) as tr:
                            v = attempt(q[1])
                        ctx.steps += tr.n
                        if tr.fired:
                            ctx.fault("question-fails:" + o["f"]["kind"])
                            if isinstance(v, Raised):
                                continue
                    else:
                        with seams.CallTrace() as tr:
                            v = attempt(q[1])
                        ctx.steps += tr.n
                    judge(q, v, w, "question %d" % k)
                    compared += 1
                    ctx.ev(n_op, q[0], digest(v))
            continue
        done += 1
    ctx.nontrivial = compared >= 2 and done >= 2
