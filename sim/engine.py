"""The deterministic simulator: one scheduler decides who runs, when it is interrupted, what the
random source and the output device do.  All decisions come from one seeded PRNG (or from a
recorded plan); the wall clock, the operating system's scheduler and hash order decide nothing.

Simulated threads are real interpreter threads parked on private locks: exactly one runs, and it
hands over only where the scheduler says so, at a simulation point (see instrument.py), at a write
to the simulated output device, at a lock operation, or when its work is done.
"""
import _thread
import functools
import gc
import random
import sys
import threading
import weakref

import numpy as np

from . import instrument
from .canon import canon

SITE_OUT, SITE_RNG, SITE_LOCK, SITE_IO = 0, 1, 2, 3
STEP_LIMIT = 400000


class HarnessError(Exception):
    pass


class SimAbort(BaseException):
    """Raised at every point once a run has to be stopped (step limit, deadlock)."""


class SimTimeout(Exception):
    """What a signal handler of the application raises to give up on a call."""


class SimCancelled(BaseException):
    """A cancellation that is not an ordinary Exception (like asyncio.CancelledError)."""


FAULTS = {
    "interrupt": lambda: KeyboardInterrupt("simulated"),
    "timeout": lambda: SimTimeout("simulated"),
    "cancel": lambda: SimCancelled("simulated"),
    "memory": lambda: MemoryError("simulated"),
    "exit": lambda: SystemExit(13),
}

RNG_NAMES = [n for n in dir(np.random.RandomState)
             if not n.startswith("_") and n not in ("poisson_lam_max",)]


class Task:
    """One call (or one thread's sequence of calls) as the simulator sees it."""
    __slots__ = ("tid", "op", "step", "hook", "text", "rng", "rngseed", "out", "lock", "state",
                 "body", "limit", "waiting", "depth", "draws")

    def __init__(self, tid=0, op=0, hook=None, rngseed=0, limit=STEP_LIMIT):
        self.tid, self.op, self.step = tid, op, 0
        self.hook, self.text, self.rng, self.rngseed = hook, [], None, rngseed
        self.out = None
        self.lock = None
        self.state = "ready"
        self.body = None
        self.limit = limit
        self.waiting = None
        self.depth = 0
        self.draws = 0


class Engine:
    def __init__(self):
        self.cur = None           # running task, None while harness code runs
        self.cov = bytearray(1)
        self.total_steps = 0
        self.aborting = None
        self.threads = []
        self.error = None
        self.sched = None
        self.rng_override = None  # function(name, args, kwargs) -> value, or None
        self.panic = None
        self.unstoppable = 0

    # ---- called from instrumented code
    def step(self, site):
        t = self.cur
        if t is None:
            return
        t.step += 1
        self.cov[site] = 1
        if t.step > t.limit or self.aborting:
            self.aborting = self.aborting or "step limit"
            self.unstoppable += 1
            if self.unstoppable > 20000 and self.panic is not None:
                self.panic(self.aborting)
            raise SimAbort(self.aborting)
        h = t.hook
        if h is not None:
            h(t, site)

    # ---- random source
    def draw(self, name, args, kw):
        t = self.cur
        if t is not None:
            self.step(SITE_RNG)
        if self.rng_override is not None and t is not None:
            t.draws += 1
            return self.rng_override(name, args, kw)
        if t is None:
            return getattr(_harness_rng, name)(*args, **kw)
        if t.rng is None:
            t.rng = take_rng(t.rngseed)
        t.draws += 1
        return getattr(t.rng, name)(*args, **kw)


E = Engine()
_harness_rng = np.random.RandomState(0)


_rng_pool, _rng_used = [], [0]


def take_rng(seed):
    """A seeded RandomState (creating one is slow, seeding is not); given back when the run ends."""
    if _rng_used[0] == len(_rng_pool):
        _rng_pool.append(np.random.RandomState(0))
    r = _rng_pool[_rng_used[0]]
    _rng_used[0] += 1
    r.seed(seed & 0xFFFFFFFF)
    return r


def reseed_harness():
    _harness_rng.seed(0)
    _rng_used[0] = 0
    E.unstoppable = 0
    IDS.reset()


def sim_s(site):
    t = E.cur
    if t is not None:
        E.step(site)


def sim_v(value, site):
    t = E.cur
    if t is not None:
        E.step(site)
    return value


class SimOut:
    """The simulated standard output of the code under test (a text device per task)."""

    def write(self, text):
        t = E.cur
        if t is None:
            return len(text)
        if t.out is not None:
            E.step(SITE_OUT)
            return t.out.write(text)
        E.step(SITE_OUT)
        t.text.append(text)
        return len(text)

    def flush(self):
        t = E.cur
        if t is not None and t.out is not None:
            t.out.flush()

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    terminal = False

    def isatty(self):
        return self.terminal

    def writable(self):
        return True

    def __getattr__(self, name):             # encoding, errors, buffer... of the device of this task
        t = E.cur
        out = t.out if t is not None else None
        if out is not None and hasattr(out, name):
            return getattr(out, name)
        if name in ("encoding", "errors", "newlines", "softspace"):
            return {"encoding": "utf-8", "errors": "strict", "newlines": None, "softspace": 0}[name]
        raise AttributeError(name)


class SimLock:
    """Replacement for threading.Lock / RLock: blocking is a scheduling decision."""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = E.cur if E.cur is not None else "harness"
        if E.cur is not None:
            E.step(SITE_LOCK)
        while self.count and not (self.reentrant and self.owner is me):
            if not blocking or timeout == 0:
                return False
            if me == "harness" or E.sched is None:
                E.aborting = "deadlock"
                raise SimAbort("deadlock")
            me.waiting = self
            E.sched.block(me)
            me.waiting = None
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.count > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.count = None, 0

    # used by threading.Condition
    def _is_owned(self):
        return self.count > 0 and self.owner is (E.cur if E.cur is not None else "harness")

    def _release_save(self):
        s = (self.count, self.owner)
        self.count, self.owner = 0, None
        return s

    def _acquire_restore(self, s):
        self.acquire()
        self.count, self.owner = s

    def __reduce__(self):
        raise TypeError("cannot pickle 'lock' object")


class SimRLock(SimLock):
    reentrant = True


class SimIds:
    """Replacement for id() inside the package: the identity of a dead object is given to the next
    new one at once (legal for an allocator, and the worst case)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.table, self.all, self.free, self.next = {}, [], [], 140000000000000

    def __call__(self, obj):
        ent = self.table.get(id(obj))
        if ent is not None and ent[0]() is obj:
            return ent[1]
        try:
            ref = weakref.ref(obj)
        except TypeError:
            ref = (lambda o: lambda: o)(obj)       # keeps it alive: its identity is never reused
        if self.free:
            n = self.free.pop()
        else:
            n, self.next = self.next, self.next + 64
        ent = (ref, n)
        self.table[id(obj)] = ent
        self.all.append(ent)
        return n

    def collect(self):
        """Called when a scenario has dropped objects."""
        if not self.all:
            return
        gc.collect()
        gc.collect()
        live = []
        for ent in self.all:
            if ent[0]() is None:
                self.free.append(ent[1])
            else:
                live.append(ent)
        self.all = live
        self.table = {k: e for k, e in self.table.items() if e[0]() is not None}


IDS = SimIds()

_real = {}


def _dispatch(name):
    def f(*args, **kw):
        return E.draw(name, args, kw)
    f.__name__ = name
    return f


def setup(patch_random=True, instrumented=True):
    """Installs the seams in this process and compiles the package under test."""
    sys.dont_write_bytecode = True
    pkg = instrument.Package(instrumented=instrumented)
    E.cov = bytearray(pkg.n_sites)
    E.package = pkg
    instrument.install(pkg, sim_s, sim_v, {"id": IDS})
    threading.Lock = threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    if hasattr(functools, "RLock"):          # functools.lru_cache
        functools.RLock = SimRLock
    if patch_random:
        for n in RNG_NAMES:
            if hasattr(np.random, n):
                _real[n] = getattr(np.random, n)
                setattr(np.random, n, _dispatch(n))
    return pkg


class Solo:
    """Context in which one task runs with the simulated device installed."""

    def __init__(self, task):
        self.task = task

    def __enter__(self):
        self.saved = (E.cur, sys.stdout, E.aborting)
        E.unstoppable = 0
        sys.stdout = SIMOUT
        E.aborting = None
        E.cur = self.task
        return self.task

    def __exit__(self, *a):
        E.cur, sys.stdout, E.aborting = self.saved
        return False


SIMOUT = SimOut()


def outcome_of(fn):
    """Runs fn() and returns (outcome, exception object or None)."""
    try:
        r = fn()
    except SimAbort as e:
        return ("abort", str(e)), e
    except HarnessError:
        raise
    except BaseException as e:
        return ("raise", type(e).__name__, str(e)), e
    if E.aborting:
        return ("abort", E.aborting), None
    cur, E.cur = E.cur, None
    try:
        c = canon(r)
    finally:
        E.cur = cur
    return ("return", c), r


class Scheduler:
    """Runs tasks as threads, one at a time, under a policy.

    policy(t, site) -> tid to switch to, or None to go on.  policy.pick(tids, why) -> tid.
    Every departure from the default (go on; lowest tid first) is logged in self.trace.
    """

    def __init__(self, bodies, policy, limit=STEP_LIMIT, rngseeds=None):
        self.tasks = []
        for i, b in enumerate(bodies):
            t = Task(i, 0, self.hook, rngseeds[i] if rngseeds else i, limit)
            t.lock = _thread.allocate_lock()
            t.lock.acquire()
            t.body = b
            self.tasks.append(t)
        self.policy = policy
        self.switches = 0
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.error = None

    def runnable(self):
        return [t.tid for t in self.tasks if t.state == "ready"
                and (t.waiting is None or not t.waiting.count)]

    def hook(self, t, site):
        to = self.policy.at(t, site)
        if to is not None and to != t.tid:
            self.switch(t, self.tasks[to])

    def switch(self, me, to):
        if to.state != "ready" or (to.waiting is not None and to.waiting.count):
            return
        self.switches += 1
        E.cur = to
        to.lock.release()
        me.lock.acquire()
        if E.aborting:
            raise SimAbort(E.aborting)

    def block(self, me):
        ids = [i for i in self.runnable() if i != me.tid]
        if not ids:
            E.aborting = "deadlock"
            raise SimAbort("deadlock")
        self.switch(me, self.tasks[self.policy.pick(me, ids)])

    def _thread_main(self, t):
        t.lock.acquire()
        try:
            try:
                t.body(t)
            except SimAbort:
                pass
        except BaseException as e:      # a harness bug: outcome_of() catches the library's
            import traceback
            self.error = traceback.format_exc()
            E.aborting = E.aborting or "harness"
        t.state = "done"
        if E.aborting:
            ids = [x.tid for x in self.tasks if x.state == "ready"]
        else:
            ids = self.runnable()
            if not ids and any(x.state == "ready" for x in self.tasks):
                E.aborting = "deadlock"
                ids = [x.tid for x in self.tasks if x.state == "ready"]
        if not ids:
            E.cur = None
            self.main.release()
            return
        nxt = self.tasks[ids[0] if E.aborting else self.policy.pick(t, ids)]
        E.cur = nxt
        nxt.lock.release()

    def run(self):
        saved = (E.cur, sys.stdout, E.aborting, E.sched)
        sys.stdout = SIMOUT
        E.aborting, E.sched = None, self
        for t in self.tasks:
            _thread.start_new_thread(self._thread_main, (t,))
        first = self.tasks[self.policy.pick(None, [t.tid for t in self.tasks])]
        E.cur = first
        first.lock.release()
        self.main.acquire()
        aborted = E.aborting
        E.cur, sys.stdout, E.aborting, E.sched = saved
        if self.error:
            raise HarnessError(self.error)
        return aborted


class RandomPolicy:
    """Seeded schedules of several shapes; logs its decisions as {(tid, op, step): tid}."""

    def __init__(self, rng, n, lengths):
        self.rng, self.n = rng, n
        self.log = []
        kind = rng.random()
        self.p = 0.0
        self.points = {}
        total = [max(1, x) for x in lengths]
        if kind < 0.35:                          # random walk
            self.p = rng.choice([0.01, 0.05, 0.15, 0.4, 0.8])
            self.skip = rng.randrange(sum(total)) if rng.random() < 0.7 else 0
            self.left = 100                      # switches at most
            self.kind = "walk"
        elif kind < 0.75:                        # a few preemptions anywhere
            k = rng.randint(1, 4)
            for _ in range(k):
                t = rng.randrange(n)
                self.points.setdefault((t, rng.randrange(1, total[t] + 1)), rng.randrange(n))
            self.kind = "points"
        else:                                    # one preemption, deep inside
            t = rng.randrange(n)
            self.points[(t, rng.randrange(1, total[t] + 1))] = rng.randrange(n)
            self.kind = "single"
        self.count = [0] * n

    def at(self, t, site):
        self.count[t.tid] += 1
        to = None
        if self.p:
            if self.skip:
                self.skip -= 1
            elif self.left and self.rng.random() < self.p:
                self.left -= 1
                to = self.rng.randrange(self.n)
        else:
            to = self.points.get((t.tid, self.count[t.tid]))
        if to is not None and to != t.tid:
            if E.sched.tasks[to].state != "ready":
                return None
            self.log.append((t.tid, self.count[t.tid], to))
            return to
        return None

    def pick(self, t, ids):
        to = ids[0] if len(ids) == 1 else self.rng.choice(ids)
        if to != ids[0]:
            self.log.append((-1 if t is None else t.tid, -1 if t is None else self.count[t.tid] + 1000000, to))
        return to


class PlanPolicy:
    """Replays a logged schedule."""

    def __init__(self, n, log):
        self.plan = {}
        for a, b, to in log:
            self.plan[(a, b)] = to
        self.count = [0] * n
        self.log = [tuple(x) for x in log]
        self.kind = "plan"

    def at(self, t, site):
        self.count[t.tid] += 1
        return self.plan.get((t.tid, self.count[t.tid]))

    def pick(self, t, ids):
        key = (-1, -1) if t is None else (t.tid, self.count[t.tid] + 1000000)
        to = self.plan.get(key)
        return to if to in ids else ids[0]
