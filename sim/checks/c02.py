"""C02: a failed or interrupted fit never leaves results of two different fits exposed together."""
import copy

from .. import seams
from ..core import nothing, Raised, UNSET, Unset, Violation, attempt, brief, digest, pristine, same
from ..models import MODELS, TX
from .common import BASE_REAL, BAD, bad_args, do_fit, gen_fault

ID = "C02"
LEVEL = "exploration"
RUNS = {"quick": 2400, "thorough": 60000}
NAMES = ["DirectLiNGAM", "ICALiNGAM", "HighDimDirectLiNGAM", "RESIT", "MultiGroupDirectLiNGAM", "BottomUpParceLiNGAM",
         "RCD", "MultiGroupRCD", "VARLiNGAM", "VARMALiNGAM", "LongitudinalLiNGAM", "DirectLiNGAM", "BottomUpParceLiNGAM",
         "RCD", "CAMUV", "LiM", "MultiGroupCAMUV"]
RULE = ("one run = one estimator object with 0-1 successful fits followed by 1-3 fits in which the k-th call made by lingam code "
        "fails (interrupt, out of memory, linear algebra failure, rejected input); after each failure every exposed result must "
        "be unset or all must come from one fit; non-trivial: a fault fired inside a fit; distinct by event-log hash")
STATE_MEASURE = "estimator x (file:function where the failure fired) x which results are unset/old/new afterwards"
REAL = BASE_REAL
STUB = ["numpy/stdlib global RNG position", "failing calls (raised by the simulator at the call site)"]
ASSUMPTIONS = ["failures surface at calls made by lingam code (CPython delivers asynchronous exceptions there and at loop back-edges)"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    name = NAMES[index % len(NAMES)]
    if index % 151 == 17:
        name = "LiNA"
    if index % 151 == 93:
        name = "MDLiNA"
    m = MODELS[name]
    cfg = m.config(rng)
    pool = [m.dspec(rng, cfg) for _ in range(3)]
    if rng.random() < 0.5:
        pool[1] = dict(pool[0], tx=rng.choice(TX)) if rng.random() < 0.4 else dict(pool[0], seed=rng.randrange(1 << 30))
    ops = []
    if rng.random() < 0.85:
        ops.append({"op": "fit", "d": 0, "s": rng.randrange(1 << 30), "f": None})
    for k in range(rng.choice([1, 1, 1, 2, 3])):
        if rng.random() < 0.12:
            ops.append({"op": "bad", "how": rng.choice(BAD)})
        else:
            ops.append({"op": "fit", "d": 1 + k % 2, "s": rng.randrange(1 << 30), "f": gen_fault(rng)})
    return {"model": name, "cfg": cfg, "pool": pool, "ops": ops}


def shrink(case):
    for i, d in enumerate(case["pool"]):
        if d.get("form", "nd") != "nd":
            c = copy.deepcopy(case)
            c["pool"][i]["form"] = "nd"
            yield c


def run(case, ctx):
    m = MODELS[case["model"]]
    cfg, pool = case["cfg"], case["pool"]
    cands = []
    est = m.make(cfg)
    blank = m.snap(m.make(cfg))
    for i, o in enumerate(case["ops"]):
        if o["op"] == "bad":
            def solo_bad():
                e2 = m.make(cfg)
                attempt(lambda: nothing(m.fit(e2, bad_args(m, o["how"]))))
                return m.snap(e2)
            alone = pristine(solo_bad)
            out, fired = attempt(lambda: nothing(m.fit(est, bad_args(m, o["how"])))), True
            if isinstance(out, Raised):
                ctx.fault("rejected-input:" + o["how"])
                # whatever this input yields on a new object before it fails is that fit's own partial result
                cands.append(("failed fit %d alone" % i, alone))
            else:
                cands.append(("accepted fit %d" % i, m.snap(est)))
        else:
            d = pool[o["d"]]

            def solo():
                e2 = m.make(cfg)
                ro, _ = do_fit(m, e2, cfg, d, o["s"])
                return ro, m.snap(e2)
            ro, rsnap = pristine(solo)
            out, fired = do_fit(m, est, cfg, d, o["s"], o["f"], ctx)
            if out == "ok":
                # a fit that reports success defines the state itself (C01 judges its value)
                if fired:
                    ctx.count("fault swallowed by the library")
                cands.append(("completed fit %d" % i, m.snap(est)))
            else:
                cands.append(("fit of data %d" % o["d"], rsnap))
        snap = m.snap(est)
        vals = {k: v for k, v in snap.items() if not isinstance(v, Unset) and not same(v, blank.get(k, UNSET))}
        if vals:
            ok = [lbl for lbl, c in cands if all(same(v, c.get(k, UNSET)) for k, v in vals.items())]
            if not ok:
                src = {k: [lbl for lbl, c in cands if same(v, c.get(k, UNSET))] or "no complete fit" for k, v in vals.items()}
                raise Violation("mixed-results-after-failed-fit",
                                "%s cfg=%s: after op %d (%s, %s) the exposed results come from: %s" % (m.name, cfg, i, o, out, src))
        else:
            ok = []
        ctx.nontrivial = ctx.nontrivial or fired
        pat = "".join("U" if isinstance(snap[k], Unset) else "v" for k in snap)
        ctx.states.add("%s|%s|%s" % (m.name, pat, ok and ok[0]))
        ctx.ev(i, o["op"], out, fired, pat, ok, digest(snap))
        ctx.count("states checked")
