"""The seams: everything nondeterministic that lingam code meets is decided here.

* call-fault seam  : every call made *from* lingam code is a fault point
  (sys.monitoring CALL events, restricted to code whose file lies in the lingam
  package).  A plan says "at the k-th dynamic call raise E".
* schedule seam    : every line and every call of lingam code is a preemption
  point of a baton-passing scheduler over real threads; exactly one runs.
* hidden randomness: ARPACK's start vector (a process-wide generator inside
  SciPy) is fixed, so that its last digits do not depend on process history.
* randomness seam  : numpy's global stream and the stdlib stream are set by the
  simulator before each operation and switched together with the thread.
Nothing here knows the names of lingam's internals.
"""
import os
import random as _pyrandom
import sys
import threading

import numpy as np
from sklearn.exceptions import ConvergenceWarning, NotFittedError

MON = sys.monitoring
TOOL = 3
_PKG = None
_events_on = 0
_line_cb = None
_call_cb = None


def set_package(path):
    global _PKG
    _PKG = os.path.realpath(path) + os.sep
    MON.use_tool_id(TOOL, "lingam-sim")
    MON.register_callback(TOOL, MON.events.LINE, _on_line)
    MON.register_callback(TOOL, MON.events.CALL, _on_call)
    _fix_arpack()


def _fix_arpack():
    import functools
    import scipy.sparse.linalg as sl

    def wrap(orig):
        @functools.wraps(orig)
        def solve(A, *a, **k):
            if len(a) < 4 and k.get("v0") is None:
                k["v0"] = np.random.RandomState(20).uniform(-1, 1, A.shape[0])
            return orig(A, *a, **k)
        return solve
    for n in ("eigsh", "eigs"):
        setattr(sl, n, wrap(getattr(sl, n)))


_inpkg = {}


def _mine(code):
    r = _inpkg.get(code.co_filename)
    if r is None:
        r = os.path.realpath(code.co_filename).startswith(_PKG)
        _inpkg[code.co_filename] = r
    return r


def _on_line(code, line):
    if not _mine(code):
        return MON.DISABLE
    cb = _line_cb
    if cb is not None:
        cb(code, line)


def _on_call(code, offset, func, arg0):
    if not _mine(code):
        return MON.DISABLE
    cb = _call_cb
    if cb is not None:
        cb(code, offset, func)


def _refresh():
    ev = 0
    if _line_cb is not None:
        ev |= MON.events.LINE
    if _call_cb is not None:
        ev |= MON.events.CALL
    MON.set_events(TOOL, ev)
    MON.restart_events()


# ------------------------------------------------------------------ RNG seam
def set_rng(seed):
    """Put every process-global random stream at a point fixed by `seed`."""
    np.random.seed(seed & 0xFFFFFFFF)
    _pyrandom.seed(seed)


def get_rng():
    return (np.random.get_state(legacy=False), _pyrandom.getstate())


def put_rng(st):
    np.random.set_state(st[0])
    _pyrandom.setstate(st[1])


def rng_token():
    st = np.random.get_state(legacy=False)
    return (st["state"]["pos"], st["state"]["key"].tobytes(), st["has_gauss"], st["gauss"],
            _pyrandom.getstate())


# ------------------------------------------------------------ call-fault seam
class SimulatedKeyboardInterrupt(KeyboardInterrupt):
    pass


class SimulatedMemoryError(MemoryError):
    pass


class SimulatedLinAlgError(np.linalg.LinAlgError):
    pass


class SimulatedOSError(OSError):
    pass


class SimulatedValueError(ValueError):
    pass


FAULTS = {
    "interrupt": SimulatedKeyboardInterrupt,
    "memory": SimulatedMemoryError,
    "linalg": SimulatedLinAlgError,
    "oserror": SimulatedOSError,
    "value": SimulatedValueError,
}


# what outside parties (callers' estimators, imputers, models) and failing fits may raise
PARTY = {"value": SimulatedValueError, "linalg": SimulatedLinAlgError, "memory": SimulatedMemoryError, "oserror": SimulatedOSError,
         "interrupt": SimulatedKeyboardInterrupt, "runtime": RuntimeError, "type": TypeError, "key": KeyError, "index": IndexError,
         "attribute": AttributeError, "zerodivision": ZeroDivisionError, "floatingpoint": FloatingPointError, "overflow": OverflowError,
         "arithmetic": ArithmeticError, "recursion": RecursionError, "timeout": TimeoutError, "assertion": AssertionError,
         "notimplemented": NotImplementedError, "warning": UserWarning, "runtimewarning": RuntimeWarning, "exception": Exception,
         "notfitted": NotFittedError, "convergence": ConvergenceWarning}
PARTY_KINDS = sorted(PARTY)


class Stuck(BaseException):
    """step budget exhausted"""


class CallTrace:
    """Counts dynamic calls made from lingam code; optionally records the distinct
    call sites; optionally raises at the k-th one.  Only the creating thread counts."""

    def __init__(self, fail_at=None, kind=None, record=False, budget=None):
        self.n = 0
        self.fail_at = fail_at
        self.kind = kind
        self.record = record
        self.sites = {}
        self.fired = False
        self.budget = budget
        self.where = None
        self.tid = threading.get_ident()

    def _cb(self, code, offset, func):
        if threading.get_ident() != self.tid:
            return
        k = self.n
        self.n = k + 1
        if self.record:
            self.sites.setdefault((code.co_filename, code.co_name, offset), []).append(k)
        if self.fail_at is not None and k == self.fail_at and not self.fired:
            self.fired = True
            self.where = "%s:%s" % (os.path.basename(code.co_filename), code.co_name)
            raise FAULTS[self.kind]("injected %s at call %d" % (self.kind, k))
        if self.budget is not None and k > self.budget:
            raise Stuck("more than %d calls" % self.budget)

    def __enter__(self):
        global _call_cb
        self._prev = _call_cb
        _call_cb = self._cb
        _refresh()
        return self

    def __exit__(self, *a):
        global _call_cb
        _call_cb = self._prev
        _refresh()
        return False


class LineTrace:
    """Calls `fn()` at every `every`-th line/call event of lingam code."""

    def __init__(self, fn, every=1):
        self.fn, self.every, self.n, self.busy = fn, every, 0, False

    def _tick(self, *a):
        self.n += 1
        if self.n % self.every == 0 and not self.busy:
            self.busy = True
            try:
                self.fn()
            finally:
                self.busy = False

    def __enter__(self):
        global _line_cb
        self._prev = _line_cb
        _line_cb = self._tick
        _refresh()
        return self

    def __exit__(self, *a):
        global _line_cb
        _line_cb = self._prev
        _refresh()
        return False


class Calls:
    """Picklable summary of a recorded CallTrace."""

    def __init__(self, tr):
        self.n, self.sites = tr.n, tr.sites


def pick_call(trace, rng):
    """Choose a fault point from a recorded fault-free execution: a distinct call site
    uniformly, then one of its dynamic occurrences (biased to first and last), or one of
    the last calls of the operation, or uniform over dynamic calls."""
    if trace.n == 0:
        return None
    u = rng.random()
    if u < 0.15:
        return rng.randrange(trace.n)
    if u < 0.35:
        return max(0, trace.n - 1 - rng.randrange(min(12, trace.n)))
    sites = sorted(trace.sites.items(), key=lambda kv: kv[1][0])
    occ = rng.choice(sites)[1]
    v = rng.random()
    if v < 0.3:
        return occ[0]
    if v < 0.6:
        return occ[-1]
    return rng.choice(occ)


# -------------------------------------------------------------- schedule seam
class Sched:
    """Seeded baton scheduler over real threads.

    policy: dict(p=<preemption probability per event>, first=<probability at the first
    time this run reaches a code line>, pct=[event numbers of forced switches]).
    One integer (seed) decides every switch."""

    def __init__(self, seed, policy, stall_s=60.0):
        self.rng = _pyrandom.Random(seed)
        self.policy = policy
        self.p = policy.get("p", 0.05)
        self.first = policy.get("first", 0.3)
        self.pct = set(policy.get("pct", ()))
        self.max_switch = policy.get("max_switch", 100000)
        self.tasks = []
        self.trace = []
        self.events = 0
        self.switches = 0
        self.seen = set()
        self.stalled = False
        self.stall_s = stall_s
        self.live = {}
        self.lock = threading.Lock()

    def add(self, fn, rng_seed, fail_at=None, kind=None):
        self.tasks.append({"fn": fn, "seed": rng_seed, "sem": threading.Semaphore(0), "done": False,
                           "rng": None, "out": None, "id": len(self.tasks), "calls": 0, "fail_at": fail_at,
                           "kind": kind, "fired": False})

    def _others(self, me):
        return [t for t in self.tasks if not t["done"] and t is not me]

    def _switch(self, me, to):
        me["rng"] = get_rng()
        self.trace.append((self.events, to["id"]))
        self.switches += 1
        to["sem"].release()
        me["sem"].acquire()
        put_rng(me["rng"])

    def point(self, key):
        me = self.live.get(threading.get_ident())
        if me is None or self.stalled:
            return
        self.events += 1
        if self.switches >= self.max_switch:
            return
        fresh = (me["id"], key) not in self.seen
        if fresh:
            self.seen.add((me["id"], key))
        go = self.events in self.pct
        if not go:
            go = self.rng.random() < (self.first if fresh else self.p)
        if go:
            o = self._others(me)
            if o:
                self._switch(me, self.rng.choice(o))

    def _line(self, code, line):
        self.point((code.co_filename, code.co_name, line))

    def _call(self, code, offset, func):
        self.point((code.co_filename, code.co_name, -offset))
        me = self.live.get(threading.get_ident())
        if me is not None and me["fail_at"] is not None:
            k = me["calls"]
            me["calls"] = k + 1
            if k == me["fail_at"] and not me["fired"]:
                me["fired"] = True
                raise FAULTS[me["kind"]]("injected %s at call %d" % (me["kind"], k))

    def _body(self, t):
        t["sem"].acquire()
        self.live[threading.get_ident()] = t
        set_rng(t["seed"])
        try:
            t["out"] = ("ok", t["fn"]())
        except BaseException as e:  # recorded; judged by the check
            t["out"] = ("raise", e)
        self.live.pop(threading.get_ident(), None)
        t["done"] = True
        o = self._others(t)
        if o and not self.stalled:
            n = self.rng.choice(o)
            if n["rng"] is not None:
                put_rng(n["rng"])
            self.trace.append((self.events, n["id"]))
            n["sem"].release()

    def run(self):
        global _line_cb, _call_cb
        ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for th in ths:
            th.start()
        pl, pc = _line_cb, _call_cb
        _line_cb, _call_cb = self._line, self._call
        _refresh()
        try:
            self.rng.choice(self.tasks)["sem"].release()
            last, waited = -1, 0.0
            for th in ths:
                while th.is_alive():
                    th.join(0.5)
                    if th.is_alive():
                        if self.events == last:
                            waited += 0.5
                        else:
                            last, waited = self.events, 0.0
                        if waited > self.stall_s and not self.stalled:
                            # a real lock inside the code: let everything run, unscheduled
                            self.stalled = True
                            for t in self.tasks:
                                if not t["done"]:
                                    t["sem"].release()
        finally:
            _line_cb, _call_cb = pl, pc
            _refresh()
        return [t["out"] for t in self.tasks]


def gen_policy(rng):
    k = rng.random()
    if k < 0.25:
        return {"p": 0.0, "first": 0.0, "pct": sorted(rng.randrange(1, 10 ** rng.choice([2, 3, 4])) for _ in range(rng.choice([1, 2, 3, 5])))}
    if k < 0.5:
        return {"p": 0.0005, "first": rng.choice([0.05, 0.3])}
    if k < 0.75:
        return {"p": 0.01, "first": 0.3, "max_switch": 3000}
    return {"p": rng.choice([0.1, 0.5]), "first": 0.7, "max_switch": 3000}


class Quantised:
    """Numerical stub at the scikit-learn boundary: regression coefficients come out as multiples of 1/2, so that exact ties,
    exact cancellation and exact zeros, which real data hardly ever show, are common. The real regressions run inside."""

    def __init__(self, on=True):
        self.on = on

    def __enter__(self):
        if not self.on:
            return self
        from sklearn.linear_model import LassoLarsIC, LinearRegression
        self.saved = [(LassoLarsIC, LassoLarsIC.__dict__["fit"]), (LinearRegression, LinearRegression.__dict__["fit"])]

        def lasso(self_, X, y, *a, **k):
            self.saved[0][1](self_, X, y, *a, **k)
            self_.coef_ = np.clip(np.round(2 * self_.coef_) / 2, -4, 4)
            return self_

        def ols(self_, X, y, *a, **k):
            self.saved[1][1](self_, X, y, *a, **k)
            c = np.asarray(self_.coef_, dtype=float)
            self_.coef_ = np.where(c < 0, -1, 1) * np.clip(np.round(2 * np.abs(c)) / 2, 0.5, 4)
            return self_
        LassoLarsIC.fit = lasso
        LinearRegression.fit = ols
        return self

    def __exit__(self, *a):
        if self.on:
            for c, f in self.saved:
                c.fit = f
        return False
