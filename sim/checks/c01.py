"""C01: a fit (and a bootstrap, and the queries after a fit) forgets the object's history."""
import copy
import pickle
import random

from .. import seams
from ..core import nothing, Raised, Violation, attempt, brief, digest, same, same_dict, derive, pristine
from ..models import MODELS, TX
from .common import BASE_REAL, BAD, Held, bad_args, do_fit, gen_fault, refill

ID = "C01"
LEVEL = "exploration"
RUNS = {"quick": 1400, "thorough": 40000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
         "RCD", "MultiGroupRCD", "CAMUV", "MultiGroupCAMUV", "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM", "LiM"]
RULE = ("one run = one estimator object driven through a seeded history (fits on other data, failed and interrupted fits, "
        "bootstraps, queries, pickle/deepcopy restarts) and compared, after every successful operation, with a freshly "
        "constructed estimator under the same RNG stream; non-trivial: >=1 prior operation reached the object before a "
        "compared one; distinct by event-log hash")
STATE_MEASURE = "estimator x (file:function where an injected call failure fired) plus estimator x history shape"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position (set by the simulator)", "failing calls (raised by the simulator at the call site)"]
ASSUMPTIONS = ["floating point results of the same tree, same process and same RNG stream agree to 1e-7 relative",
               "history is applied to one object; module-global state is covered too because the reference estimator is "
               "fitted both before (pristine child) and after the history"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    name = NAMES[index % len(NAMES)]
    if tier == "thorough" and rng.random() < 0.03:
        name = rng.choice(["LiNA", "MDLiNA"])
    if index % 97 == 13:
        name = "LiNA"
    if index % 97 == 61:
        name = "MDLiNA"
    m = MODELS[name]
    cfg = m.config(rng)
    pool = [m.dspec(rng, cfg) for _ in range(rng.choice([2, 2, 3]))]
    if rng.random() < 0.6:
        # same shape, different contents: the hardest case for stale caches
        q = dict(pool[0])
        if rng.random() < 0.5:
            q["seed"] = rng.randrange(1 << 30)
        else:
            q["tx"] = rng.choice(TX)
        pool.append(q)
    ops = []
    for _ in range(rng.randint(1, 4)):
        u = rng.random()
        d = rng.randrange(len(pool))
        s = rng.randrange(1 << 30)
        f = gen_fault(rng) if rng.random() < 0.35 else None
        if u < 0.5:
            ops.append({"op": "fit", "d": d, "s": s, "f": f, "reuse": rng.random() < 0.3})
        elif u < 0.68 and m.has_boot:
            ops.append({"op": "boot", "d": d, "s": s, "n": rng.randint(1, 2), "f": f})
        elif u < 0.8:
            ops.append({"op": "query", "d": d, "s": s, "k": rng.randrange(1 << 20), "reuse": rng.random() < 0.5})
        elif u < 0.9:
            ops.append({"op": "restart", "how": rng.choice(["pickle", "deepcopy"])})
        else:
            ops.append({"op": "bad", "how": rng.choice(BAD)})
    ops.append({"op": "fit", "d": rng.randrange(len(pool)), "s": rng.randrange(1 << 30), "f": None, "q": True, "reuse": rng.random() < 0.5,
                "d2": rng.randrange(len(pool)) if rng.random() < 0.5 else None})
    if ops[-1]["d2"] is not None and rng.random() < 0.7 and len(pool) > 2:      # the pair of equal shape
        ops[-1]["d"], ops[-1]["d2"] = rng.sample([0, len(pool) - 1], 2)
    if m.has_boot and rng.random() < 0.5:
        ops.append({"op": "boot", "d": rng.randrange(len(pool)), "s": rng.randrange(1 << 30), "n": rng.randint(1, 2), "f": None})
    return {"model": name, "cfg": cfg, "pool": pool, "ops": ops}


def shrink(case):
    for o in case["ops"]:
        if o.get("f"):
            c = copy.deepcopy(case)
            for q in c["ops"]:
                if q == o:
                    q["f"] = None
            yield c
    for i, d in enumerate(case["pool"]):
        if d.get("form", "nd") != "nd":
            c = copy.deepcopy(case)
            c["pool"][i]["form"] = "nd"
            yield c


def fresh_fit(m, cfg, d, s, with_q, d2=None):
    e = m.make(cfg)
    o, _ = do_fit(m, e, cfg, d, s)
    snap = m.snap(e) if o == "ok" else {}
    qs = ask(m, e, cfg, d, s) if with_q and o == "ok" else {}
    if d2 is not None and o == "ok":
        qs.update({"other data:" + k: v for k, v in ask(m, copy.deepcopy(e), cfg, d2, s).items()})
    return o, snap, qs


def second(pool, o):
    """the other data set the final questions are asked about, where it fits the fitted model"""
    if o.get("d2") is None:
        return None
    a, b = pool[o["d"]], pool[o["d2"]]
    return b if a["p"] == b["p"] and a.get("k") == b.get("k") else None


def ask(m, e, cfg, d, s, args=None):
    args = m.args(cfg, d) if args is None else args
    out = {}
    qs = m.queries(e, args, d)
    rng = random.Random(s)
    if len(qs) > 8:
        qs = rng.sample(qs, 8)
    for lbl, fn in qs:
        seams.set_rng(derive(s, lbl))
        out[lbl] = attempt(fn)
    return out


def boot(m, e, cfg, d, s, n, live=None):
    args = m.args(cfg, d)
    seams.set_rng(s)

    def go():
        r = m.boot(e, args, n, cfg)
        if live is not None:
            live.append(r)
        return m.boot_snap(r)
    r = attempt(go)
    return {"outcome": r} if isinstance(r, Raised) else dict(r[1])


def run(case, ctx):
    m = MODELS[case["model"]]
    cfg, pool = case["cfg"], case["pool"]
    # reference answers from pristine objects, before any history touches this process
    ref = {}
    for i, o in enumerate(case["ops"]):
        if o["op"] == "fit" and not o["f"]:
            ref[i] = pristine(lambda: fresh_fit(m, cfg, pool[o["d"]], o["s"], o.get("q"), second(pool, o)))
        elif o["op"] == "boot" and not o["f"]:
            ref[i] = pristine(lambda: boot(m, m.make(cfg), cfg, pool[o["d"]], o["s"], o["n"]))
    est = m.make(cfg)
    touched = 0
    prev = None
    shape = []
    held = Held(ctx)
    for i, o in enumerate(case["ops"]):
        op = o["op"]
        if shape:
            held.check("later-operation-changes-results-handed-out", "%s cfg=%s history %s" % (m.name, cfg, shape))
        shape.append(op + ("!" if o.get("f") else ""))
        if op == "fit":
            d = pool[o["d"]]
            args = m.args(cfg, d)
            if o.get("reuse"):
                args = refill(prev, args)
                ctx.count("fits of a reused buffer", int(prev is not None and any(a is b for a, b in zip(prev, args))))
            prev = args
            out, fired = do_fit(m, est, cfg, d, o["s"], o["f"], ctx, args=args)
            if o["f"]:
                ctx.ev(i, "fit-with-fault", fired, out)
                ctx.count("faulted fits")
            else:
                ro, rs, rq = ref[i]
                if not same(out, ro) and not (out == ro):
                    raise Violation("fit-outcome-depends-on-history", "%s cfg=%s: after history %s fit gave %s, a fresh estimator gives %s"
                                    % (m.name, cfg, shape, out, ro))
                if out == "ok":
                    snap = m.snap(est)
                    held.hold_attrs("fit %d" % i, est, m.attrs)
                    bad = same_dict(snap, rs)
                    if bad:
                        raise Violation("refit-depends-on-history", "%s cfg=%s: after history %s result %s is %s, a fresh estimator gives %s"
                                        % (m.name, cfg, shape, bad, brief(snap.get(bad[0])), brief(rs.get(bad[0]))))
                    if o.get("q"):
                        d2 = second(pool, o)
                        buf = refill(prev, m.args(cfg, d)) if o.get("reuse") else None
                        qs = ask(m, est, cfg, d, o["s"], buf)
                        if d2 is not None:
                            buf = refill(buf, m.args(cfg, d2)) if buf is not None else None
                            qs.update({"other data:" + k: v for k, v in ask(m, est, cfg, d2, o["s"], buf).items()})
                        bad = same_dict(qs, rq)
                        if bad:
                            raise Violation("query-depends-on-history", "%s cfg=%s: after history %s query %s gives %s, on a fresh estimator %s"
                                            % (m.name, cfg, shape, bad[0], brief(qs[bad[0]]), brief(rq[bad[0]])))
                    # and the reference itself has not been altered by this object's history (module-global state)
                    if touched and o.get("q"):
                        ro2, rs2, rq2 = fresh_fit(m, cfg, d, o["s"], True, d2)
                        if not (ro2 == ro or same(ro2, ro)) or same_dict(rs2, rs) or same_dict(rq2, rq):
                            raise Violation("fresh-estimator-depends-on-process-history",
                                            "%s cfg=%s: a fresh estimator's fit changed after history %s: %s" % (m.name, cfg, shape, same_dict(rs2, rs) + same_dict(rq2, rq)))
                ctx.ev(i, "fit", out, digest(m.snap(est)))
                ctx.count("compared fits")
                if touched:
                    ctx.nontrivial = True
            touched += 1
        elif op == "boot":
            d = pool[o["d"]]
            if o["f"]:
                args = m.args(cfg, d)

                def dryrun():
                    seams.set_rng(o["s"])
                    with seams.CallTrace(record=True) as dry:
                        attempt(lambda: nothing(m.boot(m.make(cfg), m.args(cfg, d), o["n"], cfg)))
                    return seams.Calls(dry)
                dry = pristine(dryrun)
                k = seams.pick_call(dry, random.Random(o["f"]["pick"]))
                seams.set_rng(o["s"])
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    out = attempt(lambda: nothing(m.boot(est, args, o["n"], cfg)))
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("call-fails-in-bootstrap:" + o["f"]["kind"])
                    ctx.states.add("%s|boot|%s" % (m.name, tr.where))
                ctx.ev(i, "boot-with-fault", tr.fired, out)
            else:
                live = []
                got = boot(m, est, cfg, d, o["s"], o["n"], live)
                for r in live:
                    for k, one in enumerate(r if isinstance(r, (list, tuple)) else [r]):
                        held.hold_attrs("bootstrap %d.%d" % (i, k), one, ("adjacency_matrices_", "total_effects_", "resampled_indices_"))
                bad = same_dict(got, ref[i])
                if bad:
                    raise Violation("bootstrap-depends-on-history", "%s cfg=%s: after history %s bootstrap %s is %s, on a fresh estimator %s"
                                    % (m.name, cfg, shape, bad[0], brief(got.get(bad[0])), brief(ref[i].get(bad[0]))))
                ctx.ev(i, "boot", digest(got))
                ctx.count("compared bootstraps")
                if touched:
                    ctx.nontrivial = True
            touched += 1
        elif op == "query":
            d = pool[o["d"]]
            args = m.args(cfg, d)
            if o.get("reuse"):
                args = refill(prev, args)
                prev = args
            qs = m.queries(est, args, d)
            if qs:
                lbl, fn = qs[o["k"] % len(qs)]
                seams.set_rng(o["s"])
                box = []
                ctx.ev(i, "query", lbl, digest(attempt(lambda: box.append(fn()) or box[0])))
                for v in box:
                    held.hold("the answer to %s" % lbl, v)
                touched += 1
        elif op == "restart":
            try:
                est = pickle.loads(pickle.dumps(est)) if o["how"] == "pickle" else copy.deepcopy(est)
                ctx.fault("restart:" + o["how"])
            except Exception as e:
                ctx.count("restart unsupported")
            ctx.ev(i, "restart", o["how"])
        elif op == "bad":
            out = attempt(lambda: nothing(m.fit(est, bad_args(m, o["how"]))))
            if isinstance(out, Raised):
                ctx.fault("rejected-input:" + o["how"])
            ctx.ev(i, "bad", out)
            touched += 1
    held.check("later-operation-changes-results-handed-out", "%s cfg=%s history %s" % (m.name, cfg, shape))
    ctx.states.add(m.name + "|" + ">".join(shape))
