"""C04: independent objects used from several threads do not influence each other."""
import copy
import hashlib
import random

from .. import scenarios as sc
from .. import seams
from ..core import Raised, Violation, attempt, brief, digest, freeze, pristine
from .c03 import same_deep, fp
from .common import BASE_REAL

ID = "C04"
LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("one run = 2-3 threads, each performing its own public operation on its own object (inputs possibly shared), preempted by "
        "the seeded scheduler at line and call granularity, one of them possibly failing at an injected call; every operation must "
        "give exactly what it gives alone; non-trivial: >=1 real context switch inside lingam code; distinct by event-log hash")
STATE_MEASURE = "set of operations in flight together x shared-input flag x failing operation"
REAL = BASE_REAL + ["CPython threads"]
STUB = ["thread scheduler (seeded baton at every line and call of lingam code)", "per-thread view of the global RNG streams",
        "failing calls"]
ASSUMPTIONS = ["preemption happens at line and call boundaries of lingam code, not inside numpy/scipy/sklearn C or Python code",
               "the process-global random stream is given to each thread separately, as a user who wants reproducible threads must"]
LIST_KEYS = ["ops"]
MIN_OPS = {"ops": 2}


def gen(rng, index, tier):
    names = sc.CHEAP
    first = names[index % len(names)]
    ops = []
    k = rng.choice([2, 2, 3])
    for j in range(k):
        u = rng.random()
        if j == 0:
            n = first
        elif u < 0.55:
            n = first
        elif u < 0.75 and first.startswith(("Fit:", "Boot:")):
            other = ("Boot:" if first.startswith("Fit:") else "Fit:") + first.split(":")[1]
            n = other if other in sc.S else first
        else:
            n = rng.choice([x for x in names if sc.S[x].cost <= 2])
        ops.append({"op": n, "spec": sc.S[n].gen(rng), "s": rng.randrange(1 << 30)})
    share = rng.random() < 0.35 and first.startswith(("Fit:", "Boot:"))
    if share:
        # same data object, each operation with its own configuration and object
        base = ops[0]
        for o in ops[1:]:
            if o["op"].split(":")[-1] == base["op"].split(":")[-1]:
                o["spec"]["d"] = base["spec"]["d"]
                if o["spec"]["cfg"].get("p") not in (None, base["spec"]["d"]["p"]) or "T" in o["spec"]["cfg"] \
                        or "poi" in o["spec"]["cfg"]:
                    o["spec"]["cfg"] = base["spec"]["cfg"]
                o["share"] = True
    fault = None
    if rng.random() < 0.25:
        fault = {"who": rng.randrange(k), "kind": rng.choice(["interrupt", "memory", "linalg"]), "pick": rng.randrange(1 << 30)}
    return {"ops": ops, "sched": rng.randrange(1 << 30), "policy": seams.gen_policy(rng), "fault": fault}


def shrink(case):
    if case.get("fault"):
        c = copy.deepcopy(case)
        c["fault"] = None
        yield c
    if case["policy"].get("pct") is None:
        for ms in (1, 2, 4, 16, 64, 256):
            if ms < case["policy"].get("max_switch", 10 ** 9):
                c = copy.deepcopy(case)
                c["policy"]["max_switch"] = ms
                yield c
    else:
        for i in range(len(case["policy"]["pct"])):
            c = copy.deepcopy(case)
            del c["policy"]["pct"][i]
            yield c


def run(case, ctx):
    ops = case["ops"]
    alone = []
    ncalls = []
    for o in ops:
        def solo(o=o):
            env = sc.S[o["op"]].build(o["spec"])
            seams.set_rng(o["s"])
            with seams.CallTrace(record=bool(case["fault"])) as tr:
                v = attempt(env.go)
            return v, seams.Calls(tr)
        v, tr = pristine(solo)
        alone.append(v)
        ncalls.append(tr)
    sch = seams.Sched(case["sched"], case["policy"])
    envs = []
    shared = None
    for o in ops:
        S = sc.S[o["op"]]
        if o.get("share") and shared is not None:
            env = S.build(o["spec"], args=shared)
        else:
            env = S.build(o["spec"])
            if shared is None and hasattr(S, "m"):
                shared = tuple(env.inputs["arg%d" % i] for i in range(len([k for k in env.inputs if k.startswith("arg")])))
        envs.append(env)
    f = case["fault"]
    who = None
    if f and f["who"] < len(ops):
        who = f["who"]
    prints = [{k: fp(v) for k, v in e.inputs.items()} for e in envs]
    for i, (o, env) in enumerate(zip(ops, envs)):
        kw = {}
        if who == i:
            k = seams.pick_call(ncalls[i], random.Random(f["pick"]))
            kw = {"fail_at": k, "kind": f["kind"]} if k is not None else {}
        sch.add(lambda env=env: attempt(env.go), o["s"], **kw)
    outs = sch.run()
    ctx.steps += sch.events
    ctx.nontrivial = sch.switches > 0
    if sch.switches:
        ctx.interleavings.add(hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
    ctx.count("context switches", sch.switches)
    ctx.count("schedules abandoned (lock inside the code)", int(sch.stalled))
    if who is not None and sch.tasks[who]["fired"]:
        ctx.fault("call-fails-in-one-thread:" + f["kind"])
    names = [o["op"] for o in ops]
    for i, (st, v) in enumerate(outs):
        if who == i and sch.tasks[i]["fired"]:
            continue
        if st == "raise":
            v = Raised(v)
        if not same_deep(v, alone[i]):
            raise Violation("interference-between-threads", "%s run concurrently with %s (shared inputs: %s) gave %s; alone it gives %s" % (
                names[i], names[:i] + names[i + 1:], any(o.get("share") for o in ops), brief(v), brief(alone[i])))
        if {k: fp(v) for k, v in envs[i].inputs.items()} != prints[i]:
            raise Violation("shared-input-modified", "%s modified data shared with another thread" % names[i])
    ctx.states.add("%s|%s|%s" % (",".join(sorted(names)), any(o.get("share") for o in ops), who is not None and names[who]))
    ctx.ev(names, sch.switches, [digest(v) for _, v in outs], hashlib.sha256(repr(sch.trace).encode()).hexdigest()[:16])
