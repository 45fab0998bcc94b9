import copy
import pickle
import random

import numpy as np

from .. import seams
from ..core import nothing, pristine, Raised, UNSET, Violation, attempt, brief, digest, freeze, same, same_dict
from ..models import MODELS

BASE_REAL = ["every lingam module under /repo (unmodified, imported from the working tree)",
             "numpy, scipy, scikit-learn, statsmodels, pandas (installed versions)"]


def weighted_model(rng, names=None, has_boot=None):
    ms = [m for m in MODELS.values() if (names is None or m.name in names) and (has_boot is None or m.has_boot == has_boot)]
    return rng.choices(ms, [1.0 / m.cost ** 0.7 for m in ms])[0]


def balanced_model(rng, index, names):
    """Round-robin over the listed models so every one gets its share of runs."""
    return MODELS[names[index % len(names)]]


def do_fit(m, est, cfg, d, seed, fault=None, ctx=None, args=None):
    """One fit under the RNG seam (and the call-fault seam).  -> (outcome, fired)"""
    args = m.args(cfg, d) if args is None else args
    if fault is None:
        seams.set_rng(seed)
        r = attempt(lambda: nothing(m.fit(est, args)))
        return r if isinstance(r, Raised) else "ok", False

    def dryrun():
        seams.set_rng(seed)
        with seams.CallTrace(record=True) as dry:
            attempt(lambda: nothing(m.fit(m.make(cfg), m.args(cfg, d))))
        return seams.Calls(dry)
    dry = pristine(dryrun)
    k = seams.pick_call(dry, random.Random(fault["pick"]))
    if k is None:
        return do_fit(m, est, cfg, d, seed, args=args)
    seams.set_rng(seed)
    with seams.CallTrace(fail_at=k, kind=fault["kind"]) as tr:
        r = attempt(lambda: nothing(m.fit(est, args)))
    if ctx is not None:
        ctx.steps += tr.n
        if tr.fired:
            ctx.fault("call-fails:" + fault["kind"])
            ctx.states.add("%s|%s" % (m.name, tr.where))
    return (r if isinstance(r, Raised) else "ok"), tr.fired


def gen_fault(rng):
    return {"kind": rng.choice(["interrupt", "interrupt", "memory", "linalg", "value"]), "pick": rng.randrange(1 << 30)}


class Held:
    """Results handed out stay as they were handed out, whatever is done with the object later."""

    def __init__(self, ctx):
        self.items, self.ctx = [], ctx

    def hold(self, lbl, live):
        if isinstance(live, (np.ndarray, list, dict, tuple)) or hasattr(live, "columns"):
            self.items.append((lbl, live, freeze(live)))
            del self.items[:-12]

    def hold_attrs(self, lbl, obj, attrs):
        for a in attrs:
            try:
                v = getattr(obj, a)
            except Exception:
                continue
            self.hold("%s %s" % (lbl, a), v)

    def drop(self, live):
        self.items = [i for i in self.items if i[1] is not live]

    def check(self, cls, what):
        for lbl, live, was in self.items:
            now = freeze(live)
            if not same(now, was, rtol=0, atol=0):
                raise Violation(cls, "%s, handed out earlier, was %s and became %s through %s" % (lbl, brief(was), brief(now), what))
            self.ctx.count("handed-out results still intact")


def refill(prev, args):
    """The caller keeps using the same arrays, with new contents: write args into the objects of prev where the shapes agree."""
    def one(a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.flags.writeable:
            a[...] = b
            return a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and a and isinstance(a[0], np.ndarray):
            new = [one(x, y) for x, y in zip(a, b)]
            if all(x is y for x, y in zip(new, a)):
                return a
        return b
    if prev is None or len(prev) != len(args):
        return args
    return tuple(one(a, b) for a, b in zip(prev, args))


BAD = ["1d", "nan", "short", "type", "half", "const", "two", "inf"]


def bad_args(m, kind):
    """Input that is rejected, or (const, two, half) that fails somewhere inside or is even accepted by some estimators."""
    rs = np.random.RandomState(5)
    if kind == "1d":
        b = np.arange(5.0)
    elif kind == "nan":
        b = np.full((20, 3), np.nan)
    elif kind == "short":
        b = np.zeros((0, 3))
    elif kind == "const":
        b = np.hstack([rs.uniform(size=(40, 2)), np.ones((40, 1))])
    elif kind == "two":
        b = rs.uniform(size=(2, 3))
    elif kind == "inf":
        b = rs.uniform(size=(40, 3))
        b[39, 2] = np.inf
    else:
        b = "not data"
    if m.kind in ("groups", "groups_hidden", "long"):
        good = rs.uniform(size=(40, 3))
        if kind == "half":
            return ([good, rs.uniform(size=(40, 2))],)
        b = [good, b] if kind in ("const", "two", "inf") else [b, b]
    elif kind == "half":
        b = np.vstack([rs.uniform(size=(40, 3)), np.full((1, 3), np.nan)])
    if m.kind in ("mixed", "lina", "mdlina"):
        return (np.arange(5.0), np.ones((1, 5)), np.ones((1, 5)))
    return (b,)
