"""C12: every model ever exposed is well formed: one order of all variables, edges along it, prior knowledge obeyed."""
import copy
import random

import numpy as np

from .. import seams
from ..core import Raised, UNSET, Violation, attempt, brief, digest, freeze, nothing
from ..models import MODELS, Model, make_pk
from .common import BASE_REAL, BAD, bad_args, do_fit, gen_fault

ID = "C12"
LEVEL = "exploration"
RUNS = {"quick": 2600, "thorough": 90000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
         "RCD", "MultiGroupRCD", "VARLiNGAM", "LongitudinalLiNGAM", "DirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
         "LongitudinalLiNGAM", "CAMUV", "MultiGroupCAMUV", "VARMALiNGAM"]
RULE = ("one run = one estimator (prior knowledge in about half of the runs that support it) driven through a seeded history of fits and "
        "bootstraps on well-behaved and awkward data (ties, near-collinear columns, few samples, large and small scales), some failing at "
        "an injected call; after every operation everything exposed and every recorded draw is checked for well-formedness; "
        "non-trivial: >=1 complete model checked; distinct by event-log hash")
STATE_MEASURE = "estimator x prior knowledge x data kind x outcome x (order, number of edges) class"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position", "failing calls"]
ASSUMPTIONS = ["prior knowledge given is consistent (some acyclic order satisfies it)",
               "RCD and CAM-UV exclude two-variable cycles only; longer cycles are left open by those algorithms"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    name = NAMES[index % len(NAMES)]
    m = MODELS[name]
    cfg = m.config(rng)
    if "pk" in cfg and cfg["pk"] is None and rng.random() < 0.4:
        for _ in range(12):
            cfg = m.config(rng)
            if cfg["pk"] is not None:
                break
    if name in ("DirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM") and cfg["pk"] is not None:
        cfg["p"] = rng.choice([2, 3, 4, 5])
    if name in ("CAMUV", "MultiGroupCAMUV") and cfg["pk"] is not None:
        cfg["pk"] = [list(x) for x in rng.sample([(0, 1), (1, 0), (0, 2), (2, 1), (1, 2)], rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(1, 3)):
        d = m.dspec(rng, cfg)
        d["odd"] = rng.choice([None, None, "ties", "collinear", "few", "big", "small", "offset"])
        u = rng.random()
        f = gen_fault(rng) if rng.random() < 0.25 else None
        if u < 0.25 and m.has_boot:
            ops.append({"op": "boot", "d": d, "s": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3])})
        elif u < 0.3:
            ops.append({"op": "bad", "how": rng.choice(BAD)})
        else:
            ops.append({"op": "fit", "d": d, "s": rng.randrange(1 << 30), "f": f})
    if ops[-1]["op"] == "bad" or ops[-1].get("f"):
        d = m.dspec(rng, cfg)
        ops.append({"op": "fit", "d": d, "s": rng.randrange(1 << 30), "f": None})
    return {"model": name, "cfg": cfg, "ops": ops}


def shrink(case):
    for i, o in enumerate(case["ops"]):
        for k, v in (("odd", None), ("form", "nd")):
            if o.get("d") and o["d"].get(k) != v:
                c = copy.deepcopy(case)
                c["ops"][i]["d"][k] = v
                yield c
        if o.get("f"):
            c = copy.deepcopy(case)
            c["ops"][i]["f"] = None
            yield c


def odd(args, how, rs):
    """Rework the data part of the arguments into an awkward variant."""
    if not how:
        return args

    def one(X):
        cols = getattr(X, "columns", None)
        A = np.array(X, dtype=float)
        n, p = A.shape
        if how == "ties":
            A = np.round(A * 1.5) / 1.5
        elif how == "collinear" and p > 1:
            A[:, p - 1] = A[:, 0] * 0.7 + 1e-3 * A[:, p - 1]
        elif how == "few":
            A = A[:max(12, p * 4)]
        elif how == "big":
            A = A * 1e5
        elif how == "small":
            A = A * 1e-4
        elif how == "offset":
            A = A + 1000.0
        return A if cols is None else type(X)(A, columns=cols)
    X = args[0]
    return ([one(x) for x in X] if isinstance(X, list) and not np.isscalar(X[0]) and np.ndim(X[0]) == 2 else one(X),) + tuple(args[1:])


class Judge:
    def __init__(self, name, cfg, how):
        self.name, self.cfg, self.how = name, cfg, how
        m = MODELS[name]
        self.pk = None
        if name in ("DirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM") and cfg.get("pk") is not None:
            self.pk = make_pk(np.random.RandomState(cfg["pk"]), cfg["p"])
        elif name == "LongitudinalLiNGAM" and cfg.get("pk") is not None:
            self.pk = m.pk(cfg)
        elif name.endswith("CAMUV"):
            self.pk = cfg.get("pk")
        self.soft = cfg.get("soft", False)
        self.numeric = how not in ("collinear", "ties")

    def fail(self, cls, msg):
        raise Violation(cls, "%s (%s data, settings %s): %s" % (self.name, self.how or "ordinary", {k: v for k, v in self.cfg.items() if v is not None}, msg))

    def order(self, o, p):
        o = [int(x) for x in o]
        if sorted(o) != list(range(p)):
            self.fail("order-not-a-permutation", "causal order %s of %d variables" % (o, p))
        return {v: k for k, v in enumerate(o)}

    def matrix(self, B, p, nan_ok=False):
        B = np.asarray(B, dtype=float)
        if B.shape != (p, p):
            self.fail("wrong-shape", "adjacency matrix has shape %s for %d variables" % (B.shape, p))
        if np.isinf(B).any():
            self.fail("not-finite", "adjacency matrix %s" % brief(B))
        if np.isnan(B).any():
            if not nan_ok:
                if self.numeric:
                    self.fail("not-finite", "adjacency matrix %s" % brief(B))
                return None
            if not np.array_equal(np.isnan(B), np.isnan(B).T):
                self.fail("undetermined-not-symmetric", "adjacency matrix %s" % brief(B))
        if np.any(np.nan_to_num(np.diag(B), nan=1.0) != 0):
            self.fail("self-loop", "adjacency matrix %s" % brief(B))
        return B

    def along(self, B, pos):
        if B is None:
            return
        for i in range(len(B)):
            for j in range(len(B)):
                if not np.isnan(B[i, j]) and B[i, j] != 0 and not pos[j] < pos[i]:
                    self.fail("edge-against-order", "edge %d -> %d contradicts the causal order (positions %s)" % (j, i, pos))

    def acyclic(self, B):
        if B is None:
            return
        A = np.nan_to_num(B) != 0
        left = list(range(len(A)))
        while left:
            free = [i for i in left if not A[i, left].any()]
            if not free:
                self.fail("cyclic", "adjacency matrix %s" % brief(B))
            left = [i for i in left if i not in free]

    def no_mutual(self, B):
        A = np.nan_to_num(B) != 0
        if (A & A.T).any():
            self.fail("mutual-edges", "adjacency matrix %s" % brief(B))

    def zeros(self, B, pk):
        if B is None:
            return
        bad = (np.asarray(pk) == 0) & ~np.isnan(B) & (B != 0) & ~np.eye(len(B), dtype=bool)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            self.fail("prior-knowledge-violated", "edge %d -> %d although prior knowledge excludes it" % (j, i))

    def pk_order(self, pos, pk):
        if self.soft:
            return
        p = len(pk)
        for i in range(p):
            for j in range(p):
                if i == j:
                    continue
                if pk[i, j] == 1 and not pos[j] < pos[i] or (pk[i, j] == 0 and pk[j, i] != 0 and not pos[i] < pos[j]):
                    if pos[i] == pos[j]:
                        continue      # order between them left undetermined
                    self.fail("prior-knowledge-violated", "order positions %s contradict prior knowledge (%d,%d)=%d (%d,%d)=%d" % (
                        pos, i, j, pk[i, j], j, i, pk[j, i]))

    # ---- whole models
    def model(self, snap, d):
        nm, p = self.name, d["p"]
        if nm in ("DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT"):
            pos = self.order(snap["causal_order_"], p)
            if snap["adjacency_matrix_"] is UNSET or isinstance(snap["adjacency_matrix_"], type(UNSET)):
                if nm == "HighDimDirectLiNGAM" and not self.cfg["adj"]:
                    return 0
                self.fail("missing-result", "no adjacency matrix after a successful fit")
            B = self.matrix(snap["adjacency_matrix_"], p)
            self.along(B, pos)
            if self.pk is not None:
                self.zeros(B, self.pk)
                self.pk_order(pos, self.pk)
            return 1
        if nm == "MultiGroupDirectLiNGAM":
            pos = self.order(snap["causal_order_"], p)
            if len(snap["adjacency_matrices_"]) != d["k"]:
                self.fail("wrong-shape", "%d adjacency matrices for %d groups" % (len(snap["adjacency_matrices_"]), d["k"]))
            for B in snap["adjacency_matrices_"]:
                B = self.matrix(B, p)
                self.along(B, pos)
                if self.pk is not None:
                    self.zeros(B, self.pk)
            if self.pk is not None:
                self.pk_order(pos, self.pk)
            return 1
        if nm == "BottomUpParceLiNGAM":
            groups = [list(map(int, g)) if isinstance(g, (list, np.ndarray, tuple)) else [int(g)] for g in snap["causal_order_"]]
            self.order([v for g in groups for v in g], p)
            pos = {v: k for k, g in enumerate(groups) for v in g}
            B = self.matrix(snap["adjacency_matrix_"], p, nan_ok=True)
            for i in range(p):
                for j in range(p):
                    if i != j and np.isnan(B[i, j]) != (pos[i] == pos[j]):
                        self.fail("undetermined-mismatch", "order %s but adjacency matrix %s" % (groups, brief(B)))
            self.along(B, pos)
            if self.pk is not None:
                self.zeros(B, self.pk)
                self.pk_order(pos, self.pk)
            return 1
        if nm in ("RCD", "MultiGroupRCD"):
            anc = [set(map(int, a[1] if isinstance(a, tuple) else a)) for a in snap["ancestors_list_"]]
            if len(anc) != p or any(not a <= set(range(p)) - {i} for i, a in enumerate(anc)):
                self.fail("malformed-ancestors", "ancestors %s of %d variables" % (anc, p))
            if any(i in anc[j] and j in anc[i] for i in range(p) for j in range(p)):
                self.fail("mutual-ancestors", "ancestors %s" % anc)
            Bs = [snap["adjacency_matrix_"]] if nm == "RCD" else snap["adjacency_matrices_"]
            for B in Bs:
                B = self.matrix(B, p, nan_ok=True)
                self.no_mutual(B)
                for i in range(p):
                    for j in range(p):
                        if not np.isnan(B[i, j]) and B[i, j] != 0 and j not in anc[i]:
                            self.fail("parent-not-ancestor", "edge %d -> %d but ancestors are %s" % (j, i, anc))
            return 1
        if nm in ("CAMUV", "MultiGroupCAMUV"):
            B = self.matrix(snap["adjacency_matrix_"], p, nan_ok=True)
            if not set(np.unique(np.nan_to_num(B))) <= {0.0, 1.0}:
                self.fail("malformed", "adjacency matrix %s" % brief(B))
            self.no_mutual(B)
            for i, j in self.pk or []:
                if B[j, i] == 1:
                    self.fail("prior-knowledge-violated", "edge %d -> %d although prior knowledge excludes it" % (i, j))
            return 1
        if nm in ("VARLiNGAM", "VARMALiNGAM"):
            pos = self.order(snap["causal_order_"], p)
            A = snap["adjacency_matrices_"]
            if nm == "VARMALiNGAM":
                psi, om = A
                Bs = list(psi) + list(om)
                inst = psi[0]
            else:
                Bs, inst = list(A), A[0]
            for B in Bs:
                B = np.asarray(B, dtype=float)
                if B.shape != (p, p) or not np.isfinite(B).all():
                    self.fail("malformed", "lag matrix %s" % brief(B))
            self.along(self.matrix(inst, p), pos)
            return 1
        if nm == "LongitudinalLiNGAM":
            T, L = d["k"], self.cfg["lags"]
            A = np.asarray(snap["adjacency_matrices_"], dtype=float)
            if A.shape != (T, L + 1, p, p) or len(snap["causal_orders_"]) != T:
                self.fail("wrong-shape", "adjacency matrices %s, %d orders for %d time points" % (A.shape, len(snap["causal_orders_"]), T))
            for t in range(T):
                if t < L:
                    if not np.isnan(A[t]).all():
                        self.fail("malformed", "time %d has no complete past but has estimates" % t)
                    continue
                pos = self.order(snap["causal_orders_"][t], p)
                if not np.isfinite(A[t]).all() and self.numeric:
                    self.fail("not-finite", "time %d: %s" % (t, brief(A[t])))
                self.along(self.matrix(A[t, 0], p), pos)
                if self.pk is not None:
                    self.zeros(self.matrix(A[t, 0], p), self.pk[t, 0])
                    self.pk_order(pos, self.pk[t, 0])
                    for lag in range(1, L + 1):
                        bad = (self.pk[t, lag] == 0) & (np.nan_to_num(A[t, lag]) != 0)
                        if bad.any():
                            i, j = np.argwhere(bad)[0]
                            self.fail("prior-knowledge-violated", "time %d: edge %d -> %d of lag %d although prior knowledge excludes it" % (t, j, i, lag))
            return 1
        return 0

    def draws(self, snap, d, n):
        """recorded draws of a bootstrap (a result, or one per group)"""
        nm, p = self.name, d["p"]
        for s in snap if isinstance(snap, list) else [snap]:
            A = s["adjacency_matrices_"]
            if len(A) != n:
                self.fail("wrong-shape", "%d recorded draws of %d" % (len(A), n))
            for B in A:
                B = np.asarray(B, dtype=float)
                if nm == "LongitudinalLiNGAM":
                    L = self.cfg["lags"]
                    for t in range(L, d["k"]):
                        C = self.matrix(B[t, 0], p)
                        self.acyclic(C)
                        if self.pk is not None:
                            self.zeros(C, self.pk[t, 0])
                            if ((self.pk[t, 1:] == 0) & (np.nan_to_num(B[t, 1:]) != 0)).any():
                                self.fail("prior-knowledge-violated", "draw with an excluded lagged edge at time %d" % t)
                elif nm in ("VARLiNGAM", "VARMALiNGAM"):
                    self.acyclic(self.matrix(B[:, :p], p))
                elif nm in ("RCD", "MultiGroupRCD"):
                    self.no_mutual(self.matrix(B, p, nan_ok=True))
                else:
                    B = self.matrix(B, p, nan_ok=nm == "BottomUpParceLiNGAM")
                    self.acyclic(B)
                    if self.pk is not None and B is not None:
                        self.zeros(B, self.pk)
                        if not self.soft:
                            reach = np.linalg.matrix_power(np.eye(p) + (np.nan_to_num(B) != 0), p) > 0
                            for i in range(p):
                                for j in range(p):
                                    if i != j and self.pk[i, j] == 0 and self.pk[j, i] == 1 and reach[i, j]:
                                        self.fail("prior-knowledge-violated", "draw %s has a path %d -> %d excluded by prior knowledge" % (brief(B), j, i))
        return n


def run(case, ctx):
    m = MODELS[case["model"]]
    cfg = case["cfg"]
    est = m.make(cfg)
    checked = 0
    shape = []
    for o in case["ops"]:
        if o["op"] == "bad":
            attempt(lambda: nothing(m.fit(est, bad_args(m, o["how"]))))
            ctx.fault("input-rejected:" + o["how"])
            shape.append("bad")
            continue
        d = o["d"]
        how = d.get("odd")
        J = Judge(case["model"], cfg, how)
        args = odd(m.args(cfg, d), how, None)
        seams.set_rng(o["s"])
        if o["op"] == "boot":
            snap = {}

            def go():
                r = m.boot(est, args, o["n"], cfg)
                snap["s"] = [Model.boot_snap(m, x) for x in (r if isinstance(r, (list, tuple)) else [r])]
            with seams.CallTrace() as tr:
                r = attempt(lambda: nothing(go()))
            ctx.steps += tr.n
            if not isinstance(r, Raised):
                checked += J.draws(snap["s"], d, o["n"])
                shape.append("boot")
            else:
                ctx.count("bootstrap of %s raised %s" % (case["model"], r.msg[:50]))
                shape.append("boot!")
        else:
            if o["f"]:
                mm = copy.copy(m)
                mm.args = lambda cfg_, d_: args
                r, fired = do_fit(mm, est, cfg, d, o["s"], o["f"], ctx)
            else:
                with seams.CallTrace() as tr:
                    r = attempt(lambda: nothing(m.fit(est, args)))
                ctx.steps += tr.n
                fired = False
            if not isinstance(r, Raised):
                checked += J.model(m.snap(est), d)
                shape.append("fit")
            else:
                if not fired:
                    ctx.count("fit raised on %s data" % how)
                shape.append("fit!")
        ctx.ev(o["op"], shape[-1], digest(m.snap(est)))
        ctx.states.add("%s|%s|%s|%s" % (case["model"], J.pk is not None, how, ",".join(shape)))
    ctx.count("models and draws checked", checked)
    ctx.nontrivial = checked > 0
