"""C03: what the caller passes in is never modified, at no moment, and results do not alias it."""
import copy
import random

import numpy as np
import pandas as pd

from .. import scenarios as sc
from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, freeze, pristine, same
from .common import BASE_REAL, gen_fault

ID = "C03"
LEVEL = "exploration"
RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("one run = one public operation on freshly built caller-owned inputs, whose bytes are compared with the originals at "
        "lines of lingam code while it runs (as a concurrent reader would see them), after it returns or fails at an injected "
        "point, and whose later overwriting by the caller must not alter results already handed out; non-trivial: the operation "
        "executed >=10 lingam lines; distinct by event-log hash")
STATE_MEASURE = "operation x input form x end (completed / failed at file:function)"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position", "failing calls (raised by the simulator at the call site)"]
ASSUMPTIONS = ["inputs are data (arrays, frames, lists, dicts, coefficient matrices); caller-supplied estimator objects are used, "
               "not copied, and are out of scope"]


def fp(x):
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, pd.DataFrame):
        if all(t.kind == "f" for t in x.dtypes):
            return (tuple(x.columns), x.index.values.tobytes(), x.to_numpy().tobytes())
        return tuple([tuple(x.columns), x.index.values.tobytes()] +
                     [x.iloc[:, j].to_numpy().tobytes() if x.dtypes.iloc[j] != "category" else tuple(x.iloc[:, j])
                      for j in range(x.shape[1])])
    if isinstance(x, pd.Series):
        return (x.index.values.tobytes(), x.to_numpy().tobytes())
    if isinstance(x, dict):
        return tuple((k, fp(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(fp(v) for v in x)
    if isinstance(x, (int, float, str, bool, type(None), np.generic)):
        return repr(x)
    return type(x).__name__


def scribble(x):
    """Overwrite everything writable the caller owns."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype.kind in "fc":
                x[...] = -987654.0
            elif x.dtype.kind in "iu":
                x[...] = 0
            elif x.dtype.kind == "b":
                x[...] = ~x
    elif isinstance(x, pd.DataFrame):
        for j in range(x.shape[1]):
            if x.dtypes.iloc[j].kind == "f":
                try:
                    x.iloc[:, j] = -987654.0
                except Exception:
                    pass
        for j, blk in enumerate([x]):
            try:
                v = blk.values
                if v.dtype.kind == "f" and v.flags.writeable:
                    v[...] = -987654.0
            except Exception:
                pass
    elif isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x[:] = []
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def gen(rng, index, tier):
    names = sc.CHEAP
    name = names[index % len(names)] if index % 101 else rng.choice(sc.SLOW)
    s = sc.S[name]
    mode = rng.choice(["watch", "watch", "fault", "fault", "scribble", "scribble"])
    if index % 13 == 5:
        return gen_settings(rng)
    return {"op": name, "spec": s.gen(rng), "s": rng.randrange(1 << 30), "mode": mode,
            "f": gen_fault(rng) if mode == "fault" else None}


SETTERS = ["Fit:" + n for n in ("DirectLiNGAM", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM", "CAMUV", "MultiGroupCAMUV",
                                "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM")]


def gen_settings(rng):
    """the caller reuses the buffer it built its settings in, before the first fit or between two fits"""
    name = rng.choice(SETTERS + SETTERS[:3] + ["CausalEffect:B"])
    if name == "CausalEffect:B":
        return {"op": name, "spec": {"form": "nd"}, "s": rng.randrange(1 << 30), "mode": "settings", "f": None,
                "list": rng.random() < 0.3, "when": 0, "full": False}
    for _ in range(60):
        spec = sc.S[name].gen(rng)
        c = spec["cfg"]
        if c.get("pk") is not None or c.get("ar") is not None:
            break
    return {"op": name, "spec": spec, "s": rng.randrange(1 << 30), "mode": "settings", "f": None,
            "when": rng.randrange(2), "full": rng.random() < 0.5}


def run_settings(case, ctx):
    ctx.nontrivial = True
    rs = np.random.RandomState(case["s"] & 0x7FFFFFFF)
    ctx.count("op " + case["op"])
    ctx.states.add("%s|settings|%d" % (case["op"], case["when"]))
    if case["op"] == "CausalEffect:B":
        p = rs.randint(2, 5)
        B = sc.dag(rs, p, dens=0.8)
        X = sc.sem(rs, 40, p, B=B)
        t = rs.randint(p)
        rest = [i for i in range(p) if i != t]
        reg = sc.LinearRegression().fit(X[:, rest], X[:, t])
        Bc = B.tolist() if case["list"] else B

        def ask(ce):
            return (ce.estimate_effects_on_prediction(X, t, reg), ce.estimate_optimal_intervention(X, t, reg, rest[0], 1.0))
        ce = sc.CausalEffect(Bc)
        with seams.CallTrace() as tr:
            a = attempt(lambda: ask(ce))
            if case["list"]:
                scribble(Bc)
            else:
                Bc *= -0.5      # another acyclic model
            ctx.fault("caller-overwrites-settings")
            b = attempt(lambda: ask(ce))
        ctx.steps += tr.n
        if not same_deep(a, b):
            raise Violation("settings-aliased", "CausalEffect: an answer changed after the caller overwrote the matrix it had passed: "
                            "%s then %s" % (brief(a, 120), brief(b, 120)))
        ctx.ev(case["op"], digest(a))
        return
    S = sc.S[case["op"]]
    m, cfg, d = S.m, case["spec"]["cfg"], case["spec"]["d"]

    def make():
        """(estimator, the caller's settings buffers); `full`: no 'unknown' entries"""
        m.given = None
        est = m.make(cfg)
        given = dict(m.given or {})
        if case["full"] and isinstance(given.get("prior_knowledge"), np.ndarray) and given["prior_knowledge"].ndim == 2:
            k = given["prior_knowledge"]
            k[k < 0] = 0
            est = type(est)(prior_knowledge=k)
        return est, given
    ref_est, _ = make()

    def fit(est):
        m.fit(est, m.args(cfg, d))
        return m.snap(est)
    seams.set_rng(case["s"])
    want = attempt(lambda: fit(ref_est))
    est, given = make()
    with seams.CallTrace() as tr:
        if case["when"]:
            seams.set_rng(case["s"])
            attempt(lambda: fit(est))
        for v in given.values():
            if isinstance(v, np.ndarray) and v.dtype.kind == "f":
                v *= -0.5       # other, equally valid coefficients
            else:
                scribble(v)
        ctx.fault("caller-overwrites-settings")
        seams.set_rng(case["s"])
        got = attempt(lambda: fit(est))
    ctx.steps += tr.n
    if not same_deep(want, got):
        raise Violation("settings-aliased", "%s: overwriting the %s passed at construction changed a later fit" % (
            case["op"], ", ".join(given)))
    ctx.ev(case["op"], digest(got))


def shrink(case):
    if case["mode"] == "settings":
        return
    for d in (case["spec"].get("d"), case["spec"]):
        if d and d.get("form", "nd") != "nd":
            c = copy.deepcopy(case)
            (c["spec"]["d"] if c["spec"].get("d") else c["spec"])["form"] = "nd"
            yield c


def run(case, ctx):
    if case["mode"] == "settings":
        return run_settings(case, ctx)
    S = sc.S[case["op"]]
    spec = case["spec"]
    form = (spec.get("d") or spec).get("form")
    env = S.build(spec)
    f0 = {k: fp(v) for k, v in env.inputs.items()}
    orig = {k: copy.deepcopy(v) for k, v in env.inputs.items()}

    def dirty():
        return [k for k, v in env.inputs.items() if fp(v) != f0[k]]

    def judge(when, where=""):
        bad = dirty()
        if bad:
            raise Violation("input-modified", "%s: caller's %s modified %s%s: was %s is %s" % (
                case["op"], bad[0], when, where, brief(orig[bad[0]], 120), brief(env.inputs[bad[0]], 120)))

    seams.set_rng(case["s"])
    if case["mode"] == "watch":
        hit = []

        def look():
            if not hit and dirty():
                hit.append(True)
        every = 1 if S.cost <= 1 else 7
        with seams.LineTrace(look, every) as lt:
            out = attempt(env.go)
        ctx.steps += lt.n
        ctx.count("moments inspected", lt.n // every)
        ctx.nontrivial = lt.n >= 10
        judge("after the call", " (%s)" % (out if isinstance(out, Raised) else "completed"))
        if hit:
            raise Violation("input-modified", "%s: caller's data was temporarily modified while the call ran" % case["op"])
        end = "raised" if isinstance(out, Raised) else "done"
    elif case["mode"] == "fault":
        def dryrun():
            with seams.CallTrace(record=True) as dry:
                attempt(S.build(spec).go)
            return seams.Calls(dry)
        dry = pristine(dryrun)
        k = seams.pick_call(dry, random.Random(case["f"]["pick"]))
        seams.set_rng(case["s"])
        with seams.CallTrace(fail_at=k, kind=case["f"]["kind"]) as tr:
            out = attempt(env.go)
        ctx.steps += tr.n
        ctx.nontrivial = tr.fired and tr.n >= 1
        if tr.fired:
            ctx.fault("call-fails:" + case["f"]["kind"])
        judge("by a call that failed", " at %s" % tr.where)
        end = str(tr.where)
    else:
        raw = {}

        def go():
            raw["v"] = env.go()
            return raw["v"]
        with seams.CallTrace() as tr:
            out = attempt(go)
        ctx.steps += tr.n
        ctx.nontrivial = tr.n >= 5
        judge("after the call")
        end = "raised"
        if "v" in raw:
            end = "scribbled"
            p0 = attempt(env.peek) if env.peek else None
            for v in env.inputs.values():
                scribble(v)
            ctx.fault("caller-overwrites-inputs")
            o2 = freeze(raw["v"])
            if not same_deep(out, o2):
                raise Violation("result-aliases-input", "%s: a returned result changed when the caller later overwrote its own inputs" % case["op"])
            if env.peek:
                p1 = attempt(env.peek)
                if not same_deep(p0, p1):
                    raise Violation("result-aliases-input", "%s: results exposed by the object changed when the caller later overwrote its own inputs" % case["op"])
    ctx.states.add("%s|%s|%s" % (case["op"], form, end))
    ctx.count("op " + case["op"])
    ctx.ev(case["op"], case["mode"], end, digest(out))


def same_deep(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("dict",):
        return len(a[1]) == len(b[1]) and all(same_deep(x, y) for x, y in zip(a[1], b[1]))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_deep(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return sorted(a) == sorted(b) and all(same_deep(a[k], b[k]) for k in a)
    return same(a, b)
