"""C07: every summary of a bootstrap equals a recount of its recorded draws, whatever was asked before."""
import copy
import hashlib
import random

import numpy as np

from .. import reference as ref
from .. import seams
from .. import subjects as su
from ..core import Raised, Violation, attempt, brief, derive, digest
from ..models import MODELS
from .common import BASE_REAL, gen_fault

ID = "C07"
LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 150000}
KINDS = su.RESULTS * 3 + ["boot:DirectLiNGAM", "boot:VARLiNGAM", "boot:LongitudinalLiNGAM", "boot:BottomUpParceLiNGAM"]
RULE = ("one run = one ledger of recorded draws (fabricated with ties, signs, NaN pairs, or produced by a real bootstrap) and a seeded "
        "sequence of summary requests, from one thread (some failing at an injected call, answers overwritten by the caller) or several "
        "interleaved threads; every answer is compared with a plain recount of the ledger; non-trivial: >=2 summaries compared on a "
        "ledger with >=1 edge; distinct by event-log hash")
STATE_MEASURE = "result kind x summary kind x threshold x split x top-k"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["thread scheduler", "failing calls"]
ASSUMPTIONS = ["order among equally frequent items is unspecified", "path summaries are requested only on acyclic draws"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    kind = KINDS[index % len(KINDS)]
    if kind.startswith("boot:"):
        m = MODELS[kind.split(":")[1]]
        cfg = m.config(rng)
        spec = {"cfg": cfg, "d": m.dspec(rng, cfg), "s": rng.randrange(1 << 30), "n": rng.choice([1, 2, 4])}
    else:
        spec = su.gen(kind, rng)
    mode = rng.choice(["seq", "seq", "threads"])
    ops = [{"q": rng.randrange(1 << 20), "f": gen_fault(rng) if mode == "seq" and rng.random() < 0.2 else None,
            "t": rng.randrange(2), "scribble": rng.random() < 0.3} for _ in range(rng.randint(4, 12))]
    return {"kind": kind, "spec": spec, "mode": mode, "ops": ops, "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng)}


def shrink(case):
    if case["mode"] == "threads":
        c = copy.deepcopy(case)
        c["mode"] = "seq"
        yield c
    for i, o in enumerate(case["ops"]):
        for k, v in (("f", None), ("scribble", False)):
            if o[k]:
                c = copy.deepcopy(case)
                c["ops"][i][k] = v
                yield c
    if case["spec"].get("n", 1) > 1:
        c = copy.deepcopy(case)
        c["spec"]["n"] -= 1
        yield c


def subject(kind, spec):
    if not kind.startswith("boot:"):
        res, ams, tes = su.result_object(kind, spec)
        lags, T = spec["lags"], (ams.shape[1] if kind.startswith("Long") else None)
        return kind, res, np.array(ams, copy=True), np.array(tes, copy=True), lags, T
    name = kind.split(":")[1]
    m = MODELS[name]
    est = m.make(spec["cfg"])
    args = m.args(spec["cfg"], spec["d"])
    seams.set_rng(spec["s"])
    res = m.boot(est, args, spec["n"], spec["cfg"])
    k = {"VARLiNGAM": "VARBootstrapResult", "LongitudinalLiNGAM": "LongitudinalBootstrapResult"}.get(name, "BootstrapResult")
    ams, tes = np.array(res.adjacency_matrices_, dtype=float), np.array(res.total_effects_, dtype=float)
    lags = ams.shape[2] // ams.shape[1] - 1 if k == "VARBootstrapResult" else 1
    return k, res, ams, tes, lags, spec["d"].get("k")


def err(got, msg):
    return "%s; got %s" % (msg, brief(got, 200))


def check_cdc(c, ams, thr, split, top):
    want = ref.direction_counts(ams, thr, split)
    n = len(c["count"])
    sign = c["sign"] if split else [0] * n
    if split != ("sign" in c) or not (len(c["from"]) == len(c["to"]) == n == len(sign)):
        return err(c, "malformed direction counts")
    keys = list(zip(map(int, c["from"]), map(int, c["to"]), map(int, sign)))
    wc = sorted(want.values(), reverse=True)[:top]
    if list(map(int, c["count"])) != wc:
        return err(c, "direction counts should be %s" % wc)
    if len(set(keys)) != n or any(want.get(k) != int(v) for k, v in zip(keys, c["count"])):
        return err(c, "directions miscounted, recount of the draws gives %s" % want)


def check_dagc(c, ams, thr, split, top):
    want = ref.dag_counts(ams, thr, split)
    keys = []
    for d in c["dag"]:
        sign = [int(s) for s in d["sign"]] if split else [0] * len(d["from"])
        if split != ("sign" in d) or not len(d["from"]) == len(d["to"]) == len(sign):
            return err(c, "malformed graph")
        keys.append(frozenset(zip(map(int, d["from"]), map(int, d["to"]), sign)))
        if len(keys[-1]) != len(sign):
            return err(c, "a graph lists a direction twice")
    wc = sorted(want.values(), reverse=True)[:top]
    if list(map(int, c["count"])) != wc or len(keys) != len(wc):
        return err(c, "graph counts should be %s" % wc)
    if len(set(keys)) != len(keys) or any(want.get(k) != int(v) for k, v in zip(keys, c["count"])):
        return err(c, "graphs miscounted")


def verdict(kind, lbl, v, ams, tes, lags, T):
    """None, or what is wrong with answer v to question lbl."""
    if isinstance(v, Exception):
        return "raised %r" % (v,)
    what = lbl[0]
    if what in ("cdc", "dagc"):
        _, mce, split, top = lbl
        f = check_cdc if what == "cdc" else check_dagc
        thr = mce or 0.0
        if kind.startswith("Long"):
            if len(v) != T:
                return err(v, "one entry per timepoint expected (%d)" % T)
            for t in range(T):
                e = f(v[t], [np.concatenate(list(A[t]), axis=1) for A in ams], thr, split, top)
                if e:
                    return "timepoint %d: %s" % (t, e)
            return None
        return f(v, ams, thr, split, top)
    if what == "prob":
        want = ref.probabilities(ams, lbl[1] or 0.0)
        if kind in ("VARBootstrapResult", "VARMABootstrapResult") and want.shape[1] > want.shape[0]:
            p = want.shape[0]
            if not isinstance(v, (list, tuple)) or len(v) != want.shape[1] // p:
                return err(v, "one probability matrix per lag expected")
            v = np.hstack(v)
        v = np.asarray(v)
        if v.shape != want.shape or not np.allclose(v, want, atol=1e-12):
            return err(v, "probabilities should be %s" % brief(want))
        return None
    if what == "te":
        want = ref.total_effects(tes, lbl[1] or 0.0)
        ks = list(zip(map(int, v["from"]), map(int, v["to"])))
        if sorted(ks) != sorted(want) or len(v["effect"]) != len(ks) or len(v["probability"]) != len(ks):
            return err(v, "total-effect directions should be %s" % sorted(want))
        pr = list(v["probability"])
        if any(a < b - 1e-12 for a, b in zip(pr, pr[1:])):
            return err(v, "total effects not sorted by probability")
        for k, e, q in zip(ks, v["effect"], pr):
            if not (np.isclose(e, want[k][0], rtol=1e-9, atol=1e-12) and np.isclose(q, want[k][1])):
                return err(v, "total effect %s should be (median %s, probability %s)" % (k, *want[k]))
        return None
    i, j, mce = lbl[1], lbl[2], lbl[-1]
    thr = mce or 0.0
    if kind == "BootstrapResult":
        want = ref.path_summary(ams, i, j, thr)
    elif kind.startswith("Long"):
        a, b = lbl[3], lbl[4]
        p = ams.shape[-1]
        want = ref.path_summary([ref.expand_long(A, a, b) for A in ams], i, p * (b - a) + j, thr)
    else:
        a, b = lbl[3], lbl[4]
        p = ams.shape[1]
        want = ref.path_summary([ref.expand_lagged(A, lags + 1) for A in ams], p * a + i, p * b + j, thr)
    ps = [tuple(map(int, q)) for q in v["path"]]
    if sorted(ps) != sorted(want) or len(v["effect"]) != len(ps) or len(v["probability"]) != len(ps):
        return err(v, "paths should be %s" % brief(sorted(want)))
    pr = list(v["probability"])
    if any(x < y - 1e-12 for x, y in zip(pr, pr[1:])):
        return err(v, "paths not sorted by probability")
    for q, e, r in zip(ps, v["effect"], pr):
        if not (np.isclose(e, want[q][0], rtol=1e-9, atol=1e-12) and np.isclose(r, want[q][1])):
            return err(v, "path %s should have (median effect %s, probability %s)" % (q, *want[q]))
    return None


def ask(fn):
    try:
        return fn()
    except Exception as e:
        return e
    except KeyboardInterrupt as e:
        return RuntimeError("interrupted")


def run(case, ctx):
    try:
        kind, res, ams, tes, lags, T = subject(case["kind"], case["spec"])
    except Exception as e:
        ctx.count("bootstrap rejected the data: " + type(e).__name__)
        ctx.ev("rejected", type(e).__name__)
        return
    acyclic = True
    for A in ams:
        if kind == "BootstrapResult":
            acyclic = acyclic and ref.is_acyclic(A)
    p = ams.shape[-1] if kind in ("BootstrapResult", "LongitudinalBootstrapResult") else ams.shape[1]
    qs = su.result_queries(kind, res, p, lags, T)
    if not acyclic:
        qs = [q for q in qs if q[0][0] != "paths"]
    if case["spec"].get("chain"):      # ask more often about the far ends of the chain
        o = np.random.RandomState(case["spec"]["seed"] & 0x7FFFFFFF).permutation(p)
        far = {(int(a), int(b)) for a in o[:3] for b in o[-3:]}
        qs = qs + [q for q in qs if q[0][0] == "paths" and q[0][1:3] in far and not q[0][3]] * 20
    ops = [dict(o, q=o["q"] % len(qs)) for o in case["ops"]]
    n_edges = int((np.abs(np.nan_to_num(ams)) > 0).sum())

    def judge(o, v, how):
        lbl = qs[o["q"]][0]
        bad = verdict(kind, lbl, v, ams, tes, lags, T)
        if bad:
            raise Violation("summary-disagrees-with-draws:" + lbl[0], "%s %s (%s) over %d draws: %s" % (kind, lbl, how, len(ams), bad))
        ctx.count("summaries compared")
        ctx.states.add("%s|%s" % (kind, [x for x in lbl if not isinstance(x, int) or isinstance(x, bool)]))
        ctx.ev(lbl, digest(v))

    if case["mode"] == "seq":
        for i, o in enumerate(ops):
            fn = qs[o["q"]][1]
            if o["f"]:
                with seams.CallTrace(record=True) as dry:
                    v = ask(fn)
                judge(o, v, "op %d" % i)
                k = seams.pick_call(dry, random.Random(o["f"]["pick"]))
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    v = ask(fn)
                if tr.fired:
                    ctx.fault("call-fails:" + o["f"]["kind"])
                ctx.steps += tr.n
                continue
            with seams.CallTrace() as tr:
                v = ask(fn)
            ctx.steps += tr.n
            judge(o, v, "op %d" % i)
            if o["scribble"] and not isinstance(v, Exception):
                from .c03 import scribble
                scribble(v)
                ctx.fault("caller-overwrites-answer")
    else:
        sch = seams.Sched(case["sched"], case["policy"])
        got = {}

        def body(t):
            for i, o in enumerate(ops):
                if o["t"] == t:
                    got[i] = ask(qs[o["q"]][1])
        for t in sorted({o["t"] for o in ops}):
            sch.add(lambda t=t: body(t), derive(case["sched"], t))
        sch.run()
        ctx.steps += sch.events
        ctx.count("context switches", sch.switches)
        if sch.switches:
            ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
        for i in sorted(got):
            judge(ops[i], got[i], "asked concurrently")
    ctx.nontrivial = n_edges > 0 and len(ops) >= 2
