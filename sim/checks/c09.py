"""C09: the imputation bootstrap follows its protocol with the two outside parties and records faithfully."""
import copy

import numpy as np

from lingam import MultiGroupDirectLiNGAM
from lingam.tools import BaseMultiGroupCDModel, BaseMultipleImputation, bootstrap_with_imputation

from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, freeze, same
from ..models import as_form, make_pk, sem
from .common import BASE_REAL

ID = "C09"
LEVEL = "exploration"
RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("one run = one imputation bootstrap with simulated imputer and/or discovery model (or the built-in ones) that work in place, "
        "reuse buffers, answer malformed, or fail at a chosen draw; the recorded call history and the result are checked against the "
        "protocol; non-trivial: >=2 party calls observed; distinct by event-log hash")
STATE_MEASURE = "imputer behaviour x model behaviour x fault kind x draw of the fault"
REAL = BASE_REAL
STUB = ["imputer and discovery model handed in by the caller (simulated parties; the built-in ones run in part of the runs)",
        "numpy/stdlib global RNG position"]
ASSUMPTIONS = ["a party that rewrites the sample it is shown before imputation changes what the imputer sees; what the imputer receives "
               "is then not checked"]

IMP_BAD = ["rows", "cols", "nan", "text", "none", "2d-short"]
CD_BAD = ["not-tuple", "three", "short-order", "dup-order", "order-range", "text-order", "adj-shape", "adj-nan", "none"]


def gen(rng, index, tier):
    n = rng.randint(1, 3)
    use_imp = rng.random() < 0.85
    use_cd = rng.random() < 0.8
    c = {"seed": rng.randrange(1 << 30), "rows": rng.randint(26, 40) if rng.random() < 0.985 else rng.randint(520, 1300), "p": rng.randint(2, 4), "n": n, "k": rng.randint(1, 3) if rng.random() < 0.97 else 12,
         "miss": rng.choice([0.0, 0.05, 0.15]), "form": rng.choice(["nd", "nd", "df", "F", "ro", "dfidx", "list"]),
         "imp": rng.choice(["copy", "inplace", "buffer", "array", "adjust"]) if use_imp else None,
         "cd": rng.choice(["fresh", "inplace", "buffer", "one", "list", "hold"]) if use_cd else None,
         "before": rng.choice(["look", "look", "look", "mutate", "keep"]), "rs": rng.choice([None, 0, 11]),
         "rep": rng.choice([None, None, 1, 2, 5]), "pk": rng.random() < 0.3, "soft": rng.random() < 0.5, "fault": None, "s": rng.randrange(1 << 30)}
    if not use_cd:
        c["k"] = max(2, c["k"])      # the built-in model needs two datasets
    if rng.random() < 0.45 and (use_imp or use_cd):
        who = rng.choice((["imp"] if use_imp else []) + (["cd"] if use_cd else []))
        kind = rng.choice(["raise", "interrupt", "malformed", "malformed"] + (["before-raise"] if who == "cd" else []))
        c["fault"] = {"who": who, "kind": kind, "draw": rng.randrange(n),
                      "how": rng.choice(IMP_BAD if who == "imp" else CD_BAD), "exc": rng.choice(seams.PARTY_KINDS)}
    return c


def shrink(case):
    for k, v in (("form", "nd"), ("rep", None), ("pk", False), ("before", "look"), ("n", case["n"] - 1), ("k", case["k"] - 1), ("p", 2)):
        if case[k] != v and v != 0 and not (k == "k" and v < 2 and not case["cd"]):
            c = copy.deepcopy(case)
            c[k] = v
            if c["fault"] and c["fault"]["draw"] >= c["n"]:
                continue
            yield c


def make_parties(case, hist, ctx):
    f = case["fault"] or {}
    rs = np.random.RandomState(case["seed"] % (1 << 31) + 1)
    err = seams.PARTY[f["exc"]]("injected party failure") if f else None
    boom = {"raise": err, "interrupt": seams.SimulatedKeyboardInterrupt("injected"), "before-raise": err}.get(f.get("kind"))

    class Imp(BaseMultipleImputation):
        def __init__(self):
            self.n = 0
            self.buf = None

        def fit_transform(self, X):
            d = self.n
            self.n += 1
            hist.append(["impute", np.array(X, copy=True), None])
            if f.get("who") == "imp" and f["draw"] == d and f["kind"] in ("raise", "interrupt"):
                ctx.fault("imputer-fails:" + (f["exc"] if f["kind"] == "raise" else f["kind"]))
                raise boom
            X = np.asarray(X)
            k = case["k"]
            out = []
            base = X if case["imp"] == "inplace" else np.array(X, copy=True)
            if not base.flags.writeable:
                base = base.copy()
            miss = np.isnan(base)
            for r in range(k):
                Y = base if (case["imp"] == "inplace" and k == 1) else base.copy()
                Y[miss] = rs.randn(int(miss.sum()))
                if case["imp"] == "adjust":
                    Y = Y + 1e-3 * (r + 1)     # an imputer may also touch observed values
                out.append(Y)
            if case["imp"] == "inplace":
                base[miss] = 0.5
                out[0] = base
            if case["imp"] == "buffer":
                if self.buf is None:
                    self.buf = np.empty((k,) + X.shape)
                self.buf[...] = out
                res = self.buf
            elif case["imp"] == "array":
                res = np.array(out)
            else:
                res = out
            hist[-1][2] = np.array(res, copy=True)
            if f.get("who") == "imp" and f["draw"] == d and f["kind"] == "malformed":
                ctx.fault("imputer-answers-malformed:" + f["how"])
                how = f["how"]
                if how == "rows":
                    return [o[:-1] for o in out]
                if how == "cols":
                    return [o[:, :-1] for o in out] if X.shape[1] > 1 else "x"
                if how == "nan":
                    out[0][0, 0] = np.nan
                    return out
                if how == "text":
                    return "not imputed"
                if how == "2d-short":
                    return out[0][:2, :]
                return None
            return res

    class CD(BaseMultiGroupCDModel):
        def __init__(self):
            self.n = 0
            self.nb = 0
            self.kept = []
            self.order = None

        def before_imputation(self, X):
            d = self.nb
            self.nb += 1
            hist.append(["before", np.array(X, copy=True), None])
            if f.get("kind") == "before-raise" and f["draw"] == d:
                ctx.fault("model-fails-before-imputation")
                raise boom
            if case["before"] == "mutate" and X.flags.writeable:
                X[~np.isnan(X)] += 1.0
            if case["before"] == "keep":
                self.kept.append((X, np.array(X, copy=True)))

        def fit(self, X_list):
            d = self.n
            self.n += 1
            hist.append(["fit", [np.array(x, copy=True) for x in X_list], None])
            if f.get("who") == "cd" and f["draw"] == d and f["kind"] in ("raise", "interrupt"):
                ctx.fault("model-fails:" + (f["exc"] if f["kind"] == "raise" else f["kind"]))
                raise boom
            p = np.asarray(X_list[0]).shape[1]
            order = rs.permutation(p)
            k = 1 if case["cd"] == "one" else len(X_list)
            adj = rs.randn(k, p, p) if case["cd"] != "one" else rs.randn(p, p)
            if case["cd"] == "inplace":
                for x in X_list:
                    if x.flags.writeable:
                        x[...] = -1.0
                X_list[:] = []
            if case["cd"] in ("buffer", "hold"):
                if self.order is None:
                    self.order, self.adj = order.copy(), adj.copy()
                self.order[...] = order
                self.adj[...] = adj
                order, adj = self.order, self.adj
            hist[-1][2] = (np.array(order, copy=True), np.array(adj, copy=True))
            if case["cd"] == "list":
                order, adj = order.tolist(), [a for a in adj]
            if f.get("who") == "cd" and f["draw"] == d and f["kind"] == "malformed":
                ctx.fault("model-answers-malformed:" + f["how"])
                how = f["how"]
                o, a = np.array(order), np.array(adj)
                return {"not-tuple": [o, a], "three": (o, a, a), "short-order": (o[:-1], a), "dup-order": (np.zeros(p, int), a),
                        "order-range": (o + 1, a), "text-order": (["a"] * p, a), "adj-shape": (o, a[..., :-1] if p > 1 else a),
                        "adj-nan": (o, a * np.nan), "none": None}[how]
            return order, adj
    return Imp() if case["imp"] else None, CD() if case["cd"] else None, boom


def perform(case, ctx):
    rs = np.random.RandomState(case["seed"] & 0x7FFFFFFF)
    X = sem(rs, case["rows"], case["p"])
    X[rs.rand(*X.shape) < case["miss"]] = np.nan
    X[0] = rs.randn(case["p"])
    X0 = X.copy()
    Xf = as_form(X, case["form"])
    hist = []
    imp, cd, boom = make_parties(case, hist, ctx)
    pk = make_pk(rs, case["p"]) if case["pk"] else None
    pk0 = None if pk is None else pk.copy()
    kw = {}
    if case["imp"] is None:
        kw["n_repeats"] = case["k"] + 1
    elif case["rep"]:
        kw["n_repeats"] = case["rep"]      # documented to matter for the built-in imputer only
    seams.set_rng(case["s"])
    with seams.CallTrace() as tr:
        out = None
        try:
            out = bootstrap_with_imputation(Xf, case["n"], cd_model=cd, imp=imp, prior_knowledge=pk,
                                            apply_prior_knowledge_softly=case["soft"], random_state=case["rs"], **kw)
            e = None
        except (Exception, seams.SimulatedKeyboardInterrupt) as ex:
            e = ex
    ctx.steps += tr.n
    return X0, Xf, hist, cd, boom, pk0, out, e


def run(case, ctx):
    X0, Xf, hist, cd, boom, pk, out, exc = perform(case, ctx)
    f = case["fault"]
    n, p, rows = case["n"], case["p"], case["rows"]
    where = "imp=%s cd=%s n_sampling=%d" % (case["imp"], case["cd"], n)

    def bad(cls, msg):
        raise Violation(cls, "%s: %s" % (where, msg))
    kinds = [h[0] for h in hist]
    per = (["before"] if case["cd"] else []) + (["impute"] if case["imp"] else []) + (["fit"] if case["cd"] else [])
    want = per * n
    if f:
        cut = per * f["draw"]
        stop = {"imp": "impute", "cd": "before" if f["kind"] == "before-raise" else "fit"}[f["who"]]
        want = cut + per[:per.index(stop) + 1]
    if kinds != want and not (exc is not None and not f and case["cd"] is None and kinds == want[:len(kinds)]):
        bad("protocol-order", "parties were called %s, expected %s" % (kinds, want))
    ctx.nontrivial = len(hist) >= 2
    if not np.array_equal(np.asarray(Xf, dtype=float), X0, equal_nan=True):
        bad("input-modified", "the caller's data changed")
    if f:
        if f["kind"] == "malformed":
            if not isinstance(exc, ValueError):
                bad("malformed-answer-accepted", "%s answered malformed (%s) and the call %s" % (
                    f["who"], f["how"], "returned a result" if exc is None else "raised %r" % (exc,)))
        elif exc is not boom:
            bad("party-failure-hidden", "the party raised %r, the call %s" % (
                boom, "returned a result" if exc is None else "raised %r" % (exc,)))
        ctx.ev(where, f, type(exc).__name__, len(hist))
        ctx.states.add("%s|%s|%s|%s" % (case["imp"], case["cd"], f["kind"] + f["how"] * (f["kind"] == "malformed"), f["draw"]))
        return
    if exc is not None:
        if case["imp"] is not None and case["cd"] is not None:
            bad("call-fails", "well-behaved parties, yet the call raised %r" % (exc,))
        ctx.count("built-in party rejected the data: " + type(exc).__name__)
        ctx.ev("raised", type(exc).__name__)
        return
    orders, adjs, idx, imps = out
    k = (case["k"] if case["imp"] else case["k"] + 1)
    if len(orders) != n or len(adjs) != n or len(idx) != n or len(imps) != n:
        bad("wrong-number-of-records", "lengths %s" % [len(orders), len(adjs), len(idx), len(imps)])
    befores = [h for h in hist if h[0] == "before"]
    imputes = [h for h in hist if h[0] == "impute"]
    fits = [h for h in hist if h[0] == "fit"]
    for i in range(n):
        ix = np.asarray(idx[i])
        if ix.shape != (rows,) or ix.dtype.kind not in "iu" or ix.min() < 0 or ix.max() >= rows:
            bad("not-a-resample", "draw %d indices %s" % (i, brief(ix)))
        if len(set(ix.tolist())) == rows:
            bad("not-with-replacement", "draw %d contains every sample exactly once" % i)
        if i and np.array_equal(ix, idx[i - 1]):
            bad("draws-not-independent", "draws %d and %d use the same resample" % (i - 1, i))
        S = X0[ix]
        miss = np.isnan(S)
        if befores and not np.array_equal(befores[i][1], S, equal_nan=True):
            bad("wrong-sample-shown", "before imputation, draw %d was shown data that its recorded indices do not name" % i)
        if imputes and case["before"] != "mutate" and not np.array_equal(imputes[i][1], S, equal_nan=True):
            bad("wrong-sample-imputed", "the imputer of draw %d was given data that its recorded indices do not name" % i)
        if imputes and case["before"] == "mutate" and case["cd"] is None and not np.array_equal(imputes[i][1], S, equal_nan=True):
            bad("wrong-sample-imputed", "the imputer of draw %d was given data that its recorded indices do not name" % i)
        if fits and imputes:
            if len(fits[i][1]) != len(imputes[i][2]) or not all(np.array_equal(a, b) for a, b in zip(fits[i][1], imputes[i][2])):
                bad("wrong-datasets-fitted", "the model of draw %d was not given the imputed datasets" % i)
        elif fits:
            for a in fits[i][1]:
                if a.shape != (rows, p) or np.isnan(a).any() or (case["before"] != "mutate" and not np.allclose(a[~miss], S[~miss])):
                    bad("wrong-datasets-fitted", "draw %d: the built-in imputer altered observed values or left gaps" % i)
            if len(fits[i][1]) != k:
                bad("wrong-datasets-fitted", "draw %d: %d imputed datasets, %d requested" % (i, len(fits[i][1]), k))
        # imputation record
        I = np.asarray(imps[i])
        if I.shape != (k, rows, p):
            bad("imputation-record-wrong", "draw %d: shape %s" % (i, I.shape))
        for r in range(k):
            if not np.isnan(I[r][~miss]).all():
                bad("imputation-record-wrong", "draw %d: observed entries are reported as imputed" % i)
            if np.isnan(I[r][miss]).any():
                bad("imputation-record-wrong", "draw %d: imputed entries are not reported" % i)
            src = imputes[i][2][r] if imputes else fits[i][1][r] if fits else None
            if src is not None and not np.array_equal(I[r][miss], src[miss]):
                bad("imputation-record-wrong", "draw %d repeat %d: reported imputations differ from those used" % (i, r))
        # model record
        if fits:
            o, a = fits[i][2]
            if not np.array_equal(np.asarray(orders[i]), o):
                bad("model-record-wrong", "draw %d: recorded causal order %s, the model said %s" % (i, brief(orders[i]), brief(o)))
            if not np.array_equal(np.asarray(adjs[i]), a):
                bad("model-record-wrong", "draw %d: recorded adjacency matrices differ from what the model said" % i)
        else:
            A = np.asarray(adjs[i])
            if A.shape != (k, p, p) or sorted(map(int, orders[i])) != list(range(p)):
                bad("model-record-wrong", "draw %d: shapes %s %s" % (i, A.shape, brief(orders[i])))
            if imputes:
                m = MultiGroupDirectLiNGAM(prior_knowledge=pk, apply_prior_knowledge_softly=case["soft"])
                w = attempt(lambda: m.fit([x.copy() for x in imputes[i][2]]).adjacency_matrices_) if k >= 2 else None
                if w is not None and not isinstance(w, Raised) and not same(freeze(list(A)), [np.asarray(x) for x in w]):
                    bad("model-record-wrong", "draw %d: recorded adjacency %s, a fresh fit of the imputed datasets gives %s" % (i, brief(A), brief(w)))
                    
    if cd is not None and case["before"] == "keep":
        for a, b in cd.kept:
            pass
    if n == 1 or case["rs"] is not None:
        if case["rs"] is not None:
            # same random_state, other global stream: same answer
            c2 = dict(case, s=case["s"] + 1)
            _, _, h2, _, _, _, o2, e2 = perform(c2, ctx)
            if e2 is not None or not np.array_equal(np.asarray(o2[2]), np.asarray(idx)):
                bad("random-state-ignored", "the same random_state drew different resamples")
            if not (same(freeze(list(out)), freeze(list(o2)))):
                bad("random-state-ignored", "the same random_state gave different records")
    ctx.ev(where, digest(freeze(list(out))))
    ctx.states.add("%s|%s|none|%d|%s" % (case["imp"], case["cd"], n, case["before"]))
    ctx.count("bootstraps checked")
