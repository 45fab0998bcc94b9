"""C05: asking questions of a fitted object is read-only, repeatable, order-free, thread-safe."""
import copy
import hashlib
import random

from .. import seams
from .. import subjects as su
from ..core import Raised, Violation, attempt, brief, derive, digest, freeze, pristine
from .c03 import same_deep, scribble
from .common import BASE_REAL, Held, gen_fault

ID = "C05"
LEVEL = "exploration"
RUNS = {"quick": 2200, "thorough": 60000}
RULE = ("one run = one fitted/constructed object asked a seeded sequence of 3-12 read-only questions (repeats, arbitrary order, some "
        "failing at an injected call, the caller overwriting returned answers), from one thread or from 2-3 threads interleaved by "
        "the scheduler; each answer must equal the answer of an untouched copy of the object; non-trivial: >=2 questions and, "
        "in threaded runs, >=1 context switch; distinct by event-log hash")
STATE_MEASURE = "object kind x mode x set of question kinds asked"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["thread scheduler (seeded baton at every line and call of lingam code)", "numpy/stdlib global RNG position", "failing calls"]
ASSUMPTIONS = ["answers that draw from the global random stream are compared under the same stream position",
               "arrays exposed as attributes belong to the object; only values returned by question methods may be overwritten by the caller"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 1}


def gen(rng, index, tier):
    kind = su.KINDS[index % len(su.KINDS)]
    spec = su.gen(kind, rng)
    mode = rng.choice(["seq", "seq", "threads", "threads"])
    k = rng.randint(3, 8) if mode == "seq" else rng.randint(2, 6)
    few = [rng.randrange(1 << 20) for _ in range(max(2, k // 2))]
    ops = []
    for _ in range(k):
        ops.append({"q": rng.choice(few), "s": rng.randrange(1 << 30),
                    "f": gen_fault(rng) if mode == "seq" and rng.random() < 0.25 else None,
                    "scribble": rng.random() < 0.3, "t": rng.randrange(rng.choice([2, 3]))})
    ops.append({"q": ops[0]["q"], "s": ops[0]["s"], "f": None, "scribble": False, "t": 1})
    return {"kind": kind, "spec": spec, "mode": mode, "ops": ops, "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng)}


def shrink(case):
    for i, o in enumerate(case["ops"]):
        for k, v in (("f", None), ("scribble", False)):
            if o[k]:
                c = copy.deepcopy(case)
                c["ops"][i][k] = v
                yield c
    if case["mode"] == "threads":
        c = copy.deepcopy(case)
        c["mode"] = "seq"
        yield c
        if case["policy"].get("pct") is None:
            for ms in (1, 2, 4, 16, 64):
                if ms < case["policy"].get("max_switch", 10 ** 9):
                    c = copy.deepcopy(case)
                    c["policy"]["max_switch"] = ms
                    yield c


def run(case, ctx):
    try:
        subj = su.build(case["kind"], case["spec"])
    except Exception as e:   # data this estimator rejects: nothing to ask
        ctx.count("object could not be built: " + type(e).__name__)
        ctx.ev("rejected", type(e).__name__)
        return
    if not subj.queries:
        return
    if case["mode"] == "threads":      # refilling one buffer from several threads would be the caller's own race
        subj.queries = [q for q in subj.queries if not str(q[0]).startswith("buf:")]
    nq = len(subj.queries)
    ops = [dict(o, q=o["q"] % nq) for o in case["ops"]]
    view0 = attempt(subj.view)

    def answer(o):
        seams.set_rng(o["s"])
        return attempt(subj.queries[o["q"]][1])

    def ref(o, record):
        def f():
            seams.set_rng(o["s"])
            with seams.CallTrace(record=record) as tr:
                v = attempt(subj.queries[o["q"]][1])
            return v, seams.Calls(tr)
        return pristine(f)
    refs = [ref(o, bool(o["f"])) for o in ops]

    def judge(i, got, how):
        if not same_deep(got, refs[i][0]):
            raise Violation("answer-depends-on-earlier-questions" if case["mode"] == "seq" else "answer-depends-on-other-threads",
                            "%s: question %s (%s, op %d of %s) gives %s; asked of an untouched object it gives %s" % (
                                case["kind"], subj.queries[ops[i]["q"]][0], how, i, [subj.queries[o["q"]][0] for o in ops],
                                brief(got), brief(refs[i][0])))
        ctx.count("answers compared")

    if case["mode"] == "seq":
        held = Held(ctx)
        for i, o in enumerate(ops):
            if i:
                held.check("question-changes-earlier-answer", "question %s of the %s" % (subj.queries[ops[i - 1]["q"]][0], case["kind"]))
            lbl, fn = subj.queries[o["q"]]
            if o["f"]:
                k = seams.pick_call(refs[i][1], random.Random(o["f"]["pick"]))
                seams.set_rng(o["s"])
                with seams.CallTrace(fail_at=k, kind=o["f"]["kind"]) as tr:
                    v = attempt(fn)
                ctx.steps += tr.n
                if tr.fired:
                    ctx.fault("call-fails:" + o["f"]["kind"])
                    if not isinstance(v, Raised):
                        judge(i, v, "failure swallowed")
                ctx.ev(i, lbl, "fault", tr.fired, type(v).__name__)
                continue
            hold = {}

            def call():
                hold["v"] = fn()
                return hold["v"]
            seams.set_rng(o["s"])
            with seams.CallTrace() as tr:
                v = attempt(call)
            ctx.steps += tr.n
            judge(i, v, "after %d earlier operations" % i)
            if o["scribble"] and "v" in hold:
                scribble(hold["v"])
                ctx.fault("caller-overwrites-answer")
            elif "v" in hold:
                held.hold("the answer to %s" % lbl, hold["v"])
            ctx.ev(i, lbl, digest(v))
        held.check("question-changes-earlier-answer", "later questions of the %s" % case["kind"])
        ctx.nontrivial = len(ops) >= 2
    else:
        sch = seams.Sched(case["sched"], case["policy"])
        threads = sorted({o["t"] for o in ops})
        got = {}

        def body(t):
            for i, o in enumerate(ops):
                if o["t"] == t:
                    got[i] = answer(o)
        for t in threads:
            sch.add(lambda t=t: body(t), derive(case["sched"], t))
        outs = sch.run()
        ctx.steps += sch.events
        ctx.count("context switches", sch.switches)
        ctx.count("schedules abandoned (lock inside the code)", int(sch.stalled))
        if sch.switches:
            ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
        ctx.nontrivial = len(ops) >= 2 and sch.switches > 0
        for st, v in outs:
            if st == "raise":
                raise v
        for i in sorted(got):
            judge(i, got[i], "asked concurrently")
        ctx.ev(case["kind"], sch.switches, [digest(got[i]) for i in sorted(got)])
    view1 = attempt(subj.view)
    if not same_deep(view0, view1):
        raise Violation("question-changes-object", "%s: exposed results changed while questions %s were answered" % (
            case["kind"], [subj.queries[o["q"]][0] for o in ops]))
    ctx.count("kind " + case["kind"])
    ctx.states.add("%s|%s|%s" % (case["kind"], case["mode"], sorted({subj.queries[o["q"]][0].split("(")[0][:12] for o in ops})))
