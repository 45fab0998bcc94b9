"""C06: every bootstrap record is exactly the fit of one genuine resample of the given data."""
import copy

import numpy as np

from .. import reference as ref
from .. import seams
from ..core import Raised, Unset, Violation, attempt, brief, digest, freeze, nothing, same, same_dict
from ..models import MODELS
from .common import BASE_REAL

ID = "C06"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 80000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
         "RCD", "MultiGroupRCD", "VARLiNGAM", "LongitudinalLiNGAM", "VARLiNGAM", "LongitudinalLiNGAM", "DirectLiNGAM",
         "BottomUpParceLiNGAM", "VARMALiNGAM"]
RULE = ("one run = one bootstrap of 1-4 draws (coverage runs: 25) with every fit it performs observed through the public fit method; "
        "in some runs one of those fits fails, in some the object has a history; every record is matched with the fit of its resample "
        "repeated by a fresh estimator under the same RNG position, the resample itself is checked against the given data, and total "
        "effects are recomputed; non-trivial: >=1 record fully reconstructed; distinct by event-log hash")
STATE_MEASURE = "estimator x data form x draws x failing draw x records reconstructed"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position", "in a share of runs scikit-learn coefficients rounded to multiples of 1/2 (exact ties and cancellation)",
        "public fit method wrapped by an observer that can fail (the real fit runs inside)"]
TALL = ("DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "MultiGroupDirectLiNGAM", "VARLiNGAM", "LongitudinalLiNGAM")
QUANT = ("DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM")
ASSUMPTIONS = ["rows of continuous data are distinct, so a resampled row identifies the original row",
               "a bootstrap that does not go through the public fit method of the object is compared only through what it records"]


def gen(rng, index, tier):
    name = NAMES[index % len(NAMES)]
    m = MODELS[name]
    cfg = m.config(rng)
    if name == "VARMALiNGAM":
        cfg["crit"] = None
    d = m.dspec(rng, cfg)
    if name == "HighDimDirectLiNGAM":
        cfg["adj"] = True
    cover = m.cost <= 1 and rng.random() < 0.12 and name not in ("RCD", "MultiGroupRCD", "BottomUpParceLiNGAM") \
        and cfg.get("measure") != "kernel"
    if cover:
        d["n"] = 30
    tall = not cover and name in TALL and rng.random() < 0.04
    if tall:
        # more rows than any fixed chunk, cap or window a resampler might use
        cfg["measure"] = "pwling" if "measure" in cfg else None
        cfg = {k: v for k, v in cfg.items() if k != "measure" or v}
        d["n"] = rng.randint(520, 1400)
    return {"model": name, "cfg": cfg, "d": d, "s": rng.randrange(1 << 30), "n": 25 if cover else 1 if tall else rng.randint(1, 4 if m.cost <= 1 else 2),
            "cover": cover, "prior": rng.choice([None, None, "fit", "boot"]), "d2": m.dspec(rng, cfg),
            "fail_draw": rng.randrange(4) if not cover and rng.random() < 0.2 else None, "fail_kind": rng.choice(seams.PARTY_KINDS),
            "refit": rng.random() < 0.3, "quant": name in QUANT and rng.random() < 0.35}


def shrink(case):
    for k, v in (("prior", None), ("fail_draw", None), ("refit", False), ("quant", False)):
        if case[k] not in (None, False):
            c = copy.deepcopy(case)
            c[k] = v
            yield c
    if case["n"] > 1:
        c = copy.deepcopy(case)
        c["n"] -= 1
        c["cover"] = False
        yield c
    if case["d"].get("form", "nd") != "nd":
        c = copy.deepcopy(case)
        c["d"]["form"] = "nd"
        yield c


def arrays(x):
    """data argument -> list of 2-D float arrays (one per group / timepoint)"""
    if isinstance(x, (list, tuple)) and not (x and np.ndim(x[0]) == 1):
        return [np.array(v, dtype=float) for v in x]
    a = np.array(x, dtype=float)
    return [v for v in a] if a.ndim == 3 else [a]


def adjs(m, snap):
    """snapshot of an estimator -> list (one per result object) of the matrix a record should show"""
    if m.name in ("MultiGroupDirectLiNGAM", "MultiGroupRCD"):
        return [np.asarray(a) for a in snap["adjacency_matrices_"]]
    if m.name == "VARLiNGAM":
        return [np.concatenate([np.asarray(a) for a in snap["adjacency_matrices_"]], axis=1)]
    if m.name == "VARMALiNGAM":
        psi, om = snap["adjacency_matrices_"]
        return [np.concatenate([np.asarray(a) for a in psi] + [np.asarray(a) for a in om], axis=1)]
    if m.name == "LongitudinalLiNGAM":
        return [np.asarray(snap["adjacency_matrices_"])]
    return [np.asarray(snap["adjacency_matrix_"])]


def row_index(R, X):
    """index of each row of R among the rows of X, -1 where it is none of them"""
    pos = {x.tobytes(): i for i, x in enumerate(np.ascontiguousarray(X))}
    return np.array([pos.get(r.tobytes(), -1) for r in np.ascontiguousarray(R)])


def near_rows(R, X, tol):
    D = np.abs(R[:, None, :] - X[None, :, :]).max(axis=2)
    j = D.argmin(axis=1)
    return np.where(D[np.arange(len(R)), j] <= tol, j, -1)


def closed_form(B):
    return np.linalg.inv(np.eye(len(B)) - B) - np.eye(len(B))


def want_effects(m, snap, case):
    """Total effects implied by a fit, one matrix per result object; entries not decided are 'None'-masked with NaN+mask."""
    out = []
    for A in adjs(m, snap):
        A = np.asarray(A, dtype=float)
        if m.name in ("VARLiNGAM", "VARMALiNGAM"):
            p = A.shape[0]
            L = len(snap["adjacency_matrices_"]) - 1 if m.name == "VARLiNGAM" else len(snap["adjacency_matrices_"][0]) - 1
            inv = np.linalg.inv(np.eye(p) - A[:, :p])
            out.append(np.hstack([inv - np.eye(p)] + [inv @ A[:, p * k:p * (k + 1)] for k in range(1, L + 1)]))
        elif m.name == "LongitudinalLiNGAM":
            T, _, p, _ = A.shape
            start = case["cfg"]["lags"]
            M = np.zeros((T * p, T * p))
            for a in range(start, T):
                E = ref.expand_long(A, a, T - 1)
                M[a * p:, a * p:(a + 1) * p] = closed_form(E)[:, :p]
            out.append(M)
        elif m.name in ("RCD", "MultiGroupRCD"):
            p = len(A)
            M = np.zeros((p, p))
            for to in range(p):
                anc = snap["ancestors_list_"][to]
                anc = anc[1] if isinstance(anc, tuple) else anc
                for f in anc:
                    f = int(f)
                    bad = np.isnan(A[f]).any()
                    M[to, f] = np.nan if bad else ref.total_effect_paths(A, f, to)
            out.append(M)
        elif m.name == "BottomUpParceLiNGAM":
            p = len(A)
            M = np.zeros((p, p))
            order = snap["causal_order_"]
            for c, fr in enumerate(order):
                for to in order[c + 1:]:
                    for f in (fr if isinstance(fr, (list, tuple, np.ndarray)) else [fr]):
                        for t in (to if isinstance(to, (list, tuple, np.ndarray)) else [to]):
                            M[int(t), int(f)] = np.nan if np.isnan(A[int(f)]).any() else ref.total_effect_paths(A, int(f), int(t))
            out.append(M)
        else:
            out.append(closed_form(A))
    return out


def records(m, res):
    rs = res if isinstance(res, list) else [res]
    return [(np.asarray(r.adjacency_matrices_, dtype=float), np.asarray(r.total_effects_, dtype=float)) for r in rs]


def run(case, ctx):
    with seams.Quantised(case["quant"]):
        run_(case, ctx)
    if case["quant"]:
        ctx.count("runs with exactly cancelling coefficients possible")


def run_(case, ctx):
    m = MODELS[case["model"]]
    cfg, d = case["cfg"], case["d"]
    est = m.make(cfg)
    if case["prior"]:
        a2 = m.args(cfg, case["d2"])
        seams.set_rng(case["s"] + 1)
        attempt(lambda: nothing(m.fit(est, a2) if case["prior"] == "fit" else m.boot(est, a2, 1, cfg)))
        ctx.count("object with history")
    args = m.args(cfg, d)
    X0 = arrays(args[0])
    calls = []
    orig_fit = type(est).fit
    state = {"n": 0}

    def fit(*a, **k):
        X = a[0] if a else next(iter(k.values()))
        c = {"X": arrays(X), "rng": seams.get_rng(), "snap": None}
        same_as_given = len(c["X"]) == len(X0) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(c["X"], X0))
        calls.append(c)
        c["given"] = same_as_given
        if not same_as_given:
            state["n"] += 1
            if case["fail_draw"] is not None and state["n"] - 1 == case["fail_draw"] % case["n"] and not state.get("failed"):
                state["failed"] = True
                ctx.fault("fit-of-a-draw-fails:" + case["fail_kind"])
                raise seams.PARTY[case["fail_kind"]]("injected: this draw cannot be fitted")
        orig_fit(est, *a, **k)
        c["snap"] = m.snap(est)
        c["X_after"] = arrays(X)
        return est
    try:
        est.fit = fit
    except Exception:
        ctx.count("unobservable: public fit cannot be wrapped")
    seams.set_rng(case["s"])
    hold = {}

    def go():
        hold["r"] = m.boot(est, args, case["n"], cfg)
        return m.boot_snap(hold["r"])
    out = attempt(go)
    try:
        del est.fit
    except AttributeError:
        pass
    if isinstance(out, Raised):
        ctx.ev("bootstrap raised", out.type, case["fail_draw"])
        ctx.count("bootstrap raised")
        return
    if state.get("failed"):
        raise Violation("failed-draw-hidden", "%s cfg=%s: a bootstrap of %d draws one of which could not be fitted returned a result" % (m.name, cfg, case["n"]))
    res = hold["r"]
    recs = records(m, res)
    name = m.name
    n = case["n"]
    where = "%s cfg=%s n_sampling=%d" % (name, cfg, n)
    if name in ("MultiGroupDirectLiNGAM", "MultiGroupRCD") and len(recs) != len(X0):
        raise Violation("wrong-number-of-results", "%s: %d results for %d groups" % (where, len(recs), len(X0)))
    for A, T in recs:
        if len(A) != n or len(T) != n:
            raise Violation("wrong-number-of-records", "%s: %d adjacency and %d total-effect records" % (where, len(A), len(T)))
    snap0 = m.boot_snap(res)
    done = [c for c in calls if c["snap"] is not None and not c["given"]]
    if not done:
        ctx.count("unobservable: no public fit of a resample seen")
    # public record of which samples were drawn
    idx = getattr(res, "resampled_indices_", None) if not isinstance(res, list) else None
    if idx is not None and len(idx):
        if len(idx) != n:
            raise Violation("wrong-number-of-records", "%s: %d lists of resampled indices" % (where, len(idx)))
        for i, ix in enumerate(idx):
            ix = np.asarray(ix)
            if ix.shape != (len(X0[0]),) or ix.min() < 0 or ix.max() >= len(X0[0]):
                raise Violation("not-a-resample", "%s: draw %d has indices %s for %d samples" % (where, i, brief(ix), len(X0[0])))
    if case["refit"]:
        # later use of the object must not reach into the records
        seams.set_rng(case["s"] + 2)
        attempt(lambda: nothing(m.fit(est, m.args(cfg, case["d2"]))))
        bad = same_dict(snap0, m.boot_snap(res))
        if bad:
            raise Violation("records-change-later", "%s: %s changed when the estimator was fitted again" % (where, bad))
    # match every record with the fit it came from
    k = 0
    src = []
    if done:
        for i in range(n):
            while k < len(done) and not all(same(a[i], w) for (a, _), w in zip(recs, adjs(m, done[k]["snap"]))):
                k += 1
            if k == len(done):
                raise Violation("record-matches-no-fit", "%s: record %d (%s) is not the outcome of any fit of a resample" % (
                    where, i, brief(recs[0][0][i])))
            src.append(done[k])
            k += 1
    elif idx is not None and len(idx) and not m.uses_rng:
        src = [{"X": [X0[0][np.asarray(ix)]], "rng": seams.get_rng()} for ix in idx]
    drawn = [set() for _ in X0]
    prev = None
    # the series generator of the time-series bootstraps, reconstructed from a reference fit of the given data
    gen_ref = None
    if name in ("VARLiNGAM", "VARMALiNGAM") and src:
        gen_ref = series_reference(m, cfg, d, case, calls, X0[0])
    for i, c in enumerate(src):
        # 1. the resample is a resample
        joint = None
        if gen_ref is None and name not in ("VARLiNGAM", "VARMALiNGAM"):
            for g, (R, X) in enumerate(zip(c["X"], X0)):
                if R.shape != X.shape:
                    raise Violation("not-a-resample", "%s: draw %d part %d has shape %s, data %s" % (where, i, g, R.shape, X.shape))
                ri = row_index(R, X)
                if (ri < 0).any():
                    raise Violation("not-a-resample", "%s: draw %d part %d contains rows that are not rows of the data, e.g. %s" % (
                        where, i, g, brief(R[np.argmin(ri)])))
                if len(ri) >= 25 and len(set(ri)) == len(ri):
                    raise Violation("not-with-replacement", "%s: draw %d part %d contains every row exactly once" % (where, i, g))
                if name == "LongitudinalLiNGAM":
                    if joint is not None and not np.array_equal(joint, ri):
                        raise Violation("timepoints-not-resampled-jointly", "%s: draw %d timepoint %d uses other individuals than timepoint 0" % (where, i, g))
                    joint = ri if joint is None else joint
                drawn[g].update(ri.tolist())
                if g == 0:
                    first = ri
            if idx is not None and len(idx) and not np.array_equal(X0[0][np.asarray(idx[i])], c["X"][0]):
                raise Violation("recorded-indices-wrong", "%s: the data fitted in draw %d are not the samples its recorded indices name" % (where, i))
            if len(c["X"]) != len(X0):
                raise Violation("not-a-resample", "%s: draw %d has %d parts, data %d" % (where, i, len(c["X"]), len(X0)))
        elif gen_ref is not None:
            e = gen_ref["innov"](c["X"][0])
            R = gen_ref["resid"]
            if len(c["X"][0]) != len(X0[0]):
                raise Violation("not-a-resample", "%s: draw %d has %d time points, data %d" % (where, i, len(c["X"][0]), len(X0[0])))
            tol = 1e-7 * (1 + np.abs(c["X"][0]).max() + np.abs(R).max())
            ri = near_rows(e, R, tol)
            if (ri < 0).any():
                raise Violation("not-a-resample", "%s: the innovations of draw %d are not residuals of the fit to the given data (first at step %d: %s)" % (
                    where, i, int(np.argmin(ri)), brief(e[np.argmin(ri)])))
            if len(ri) >= 25 and len(set(ri)) == len(ri):
                raise Violation("not-with-replacement", "%s: draw %d uses every residual at most once" % (where, i))
            drawn[0].update(ri.tolist())
            first = ri
        else:
            first = c["X"][0]
        if prev is not None and np.array_equal(prev, first):
            raise Violation("draws-not-independent", "%s: draws %d and %d are the same resample" % (where, i - 1, i))
        prev = first
        # 2. the record is what a fresh estimator finds on that resample
        if not case["cover"] or i % 8 == 0:
            fcfg = dict(cfg)
            if "crit" in fcfg:
                fcfg["crit"] = None
            e2 = m.make(fcfg)
            seams.put_rng(c["rng"])
            data = [x.copy() for x in c["X"]]
            arg = data if m.kind in ("groups", "groups_hidden", "long") else data[0]
            o = attempt(lambda: nothing(m.fit(e2, (arg,))))
            if isinstance(o, Raised):
                raise Violation("record-differs-from-fit", "%s: a fresh estimator rejects the resample of draw %d: %s" % (where, i, o))
            s2 = m.snap(e2)
            for g, ((A, T), w) in enumerate(zip(recs, adjs(m, s2))):
                if not same(A[i], w):
                    raise Violation("record-differs-from-fit", "%s: record %d (result %d) is %s; a fresh fit of that resample gives %s" % (
                        where, i, g, brief(A[i]), brief(w)))
            # 3. total effects
            for g, ((A, T), w) in enumerate(zip(recs, want_effects(m, s2, case))):
                if name == "MultiGroupRCD" and T[i].shape == w.shape:
                    # a confounded source has no determined total effect; this class records 0 there, others NaN
                    w = np.where(np.isnan(w), np.where(np.isnan(T[i]) | (T[i] == 0), T[i], w), w)
                if T[i].shape != w.shape or not same(T[i], w, 1e-6, 1e-8):
                    raise Violation("total-effects-wrong", "%s: total effects of record %d (result %d) are %s; its graph implies %s" % (
                        where, i, g, brief(T[i]), brief(w)))
            ctx.count("records reconstructed")
            ctx.nontrivial = True
        ctx.steps += 1
    if case["cover"] and src:
        size = [len(x) for x in X0] if gen_ref is None else [len(gen_ref["resid"])]
        for g, z in enumerate(size):
            if len(drawn[g]) != z:
                raise Violation("some-samples-never-drawn", "%s: %d of %d samples (part %d) never drawn in 25 draws" % (where, z - len(drawn[g]), z, g))
        ctx.count("coverage bootstraps")
    ctx.states.add("%s|%s|%d|%s|%d" % (name, d.get("form"), n, case["fail_draw"] is not None, len(src)))
    ctx.ev(name, n, case["prior"], state.get("failed"), digest(snap0))


def series_reference(m, cfg, d, case, calls, X):
    """Residuals of the fit to the given data and the map series -> innovations.
    VAR only: the lag coefficients follow from data and residuals of that fit by least squares."""
    if m.name != "VARLiNGAM" and cfg["ar"] is None:
        return None
    e = m.make(dict(cfg, crit=None))
    given = m.given
    seams.set_rng(case["s"])
    e.fit(X.copy())
    R = np.asarray(e.residuals_, dtype=float)
    if m.name == "VARMALiNGAM":
        ar, ma = given["ar_coefs"], given["ma_coefs"]

        def innov(Y):
            E = np.zeros_like(Y)
            for j in range(len(Y)):
                E[j] = Y[j]
                if j >= max(len(ar), len(ma)):
                    E[j] = Y[j] - sum(M @ Y[j - 1 - k] for k, M in enumerate(ar)) - sum(M @ E[j - 1 - k] for k, M in enumerate(ma))
            return E
        return {"resid": R, "innov": innov}
    n, p = X.shape
    L = n - len(R)
    if L < 1:
        return None
    Z = np.hstack([X[L - 1 - k:n - 1 - k] for k in range(L)])
    if Z.shape[0] < Z.shape[1] + 2:
        return None
    C, *_ = np.linalg.lstsq(Z, X[L:] - R, rcond=None)
    if not np.allclose(Z @ C, X[L:] - R, atol=1e-8 * (1 + np.abs(X).max())):
        return None

    def innov(Y):
        Zy = np.hstack([Y[L - 1 - k:len(Y) - 1 - k] for k in range(L)])
        return np.vstack([Y[:L], Y[L:] - Zy @ C])
    return {"resid": R, "innov": innov}
