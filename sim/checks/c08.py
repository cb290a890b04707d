"""C08: the caller's random stream and process-wide settings are left alone."""
import builtins
import cmath
import copy
import ctypes
import decimal
import gc
import locale
import logging
import math
import os
import random
import resource
import signal
import sys
import threading
import warnings

import numpy as np

from .. import catalog, core, engine, instrument
from ..base import Check
from ..catalog import OP_NAMES, RANDOM_OPS
from ..core import Violation
from ..engine import E, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..gen import focus, related

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
ERR = ["divide", "over", "under", "invalid"]
MAX_BLOCKS = 60
STATE_BYTES = 624 * 4 + 4


class Stream:
    """numpy's global generator, read directly (np.random.get_state is slow)."""

    def __init__(self):
        self.bg = np.random.mtrand._rand._bit_generator
        self.addr = self.bg.ctypes.state_address
        self.clone = np.random.RandomState(0)
        self.caddr = self.clone._bit_generator.ctypes.state_address
        np.random.seed(12345)
        np.random.random_sample(3)
        st = np.random.get_state()
        s = self.read()
        self.fast = s[:2496] == st[1].astype("<u4").tobytes() and self.pos(s) == st[2]
        if not self.fast:
            raise engine.HarnessError("cannot read the state of numpy's generator")

    def read(self):
        return ctypes.string_at(self.addr, STATE_BYTES)

    @staticmethod
    def pos(s):
        return int.from_bytes(s[2496:2500], "little")

    def reachable(self, a, b):
        """Whether state b follows from state a by drawing values."""
        if a == b:
            return True
        if a[:2496] == b[:2496]:
            return self.pos(b) >= self.pos(a)
        ctypes.memmove(self.caddr, a, STATE_BYTES)
        raw = self.clone._bit_generator.random_raw
        raw(624 - self.pos(a) + 1, output=False)
        for _ in range(MAX_BLOCKS):
            if ctypes.string_at(self.caddr, 2496) == b[:2496]:
                return True
            raw(624, output=False)
        return False


class _Foreign(UserWarning):
    pass


def _errcall(kind, flag):
    return None


def _namespace():
    out = {}
    for m in (np, np.random, np.linalg, math, cmath, builtins, warnings, random, os.path):
        d = vars(m)
        for n in list(d):
            if not n.startswith("_"):
                out[m.__name__ + "." + n] = d[n]
    return out


def light(out):
    """Settings compared after every call (out: the standard output the call left behind)."""
    return {"numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy error callback": np.geterrcall(),
            "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "numpy buffer size": np.getbufsize(),
            "warning filters": list(warnings.filters),
            "warning display": (warnings.showwarning, warnings.formatwarning),
            "recursion limit": sys.getrecursionlimit(),
            "standard output": out,
            "standard error and input": (sys.stderr, sys.stdin),
            "display and exception hooks": (sys.displayhook, sys.excepthook)}


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def heavy():
    """Settings compared after every phase."""
    return {"display of arrays": repr(np.array([0.123456789, 1e-9])) + repr(np.float64(1 / 3)),
            "python's random stream": random.getstate(),
            "full numpy stream": [x.tolist() if isinstance(x, np.ndarray) else x for x in np.random.get_state()],
            "decimal context": repr(decimal.getcontext()),
            "locale": locale.setlocale(locale.LC_ALL),
            "environment": dict(os.environ),
            "working directory": os.getcwd(),
            "collector": gc.isenabled(),
            "signal handlers": tuple(signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)),
            "thread switch interval": sys.getswitchinterval(),
            "module search path": list(sys.path),
            "logging": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.disabled,
                        logging.raiseExceptions),
            "stack size of threads": threading.stack_size(),
            "file creation mask": umask(),
            "resource limits": tuple(resource.getrlimit(r) for r in (resource.RLIMIT_STACK, resource.RLIMIT_AS,
                                                                     resource.RLIMIT_NOFILE)),
            "trace hooks": (sys.gettrace(), sys.getprofile())}


def differ(a, b):
    for k in a:
        if a[k] != b[k]:
            x, y = a[k], b[k]
            if isinstance(x, (list, tuple)) and len(repr(x)) > 300:
                n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                x, y = x[n:n + 2], y[n:n + 2]
            return {"setting": k, "before": repr(x)[:300], "after": repr(y)[:300]}
    return None


class C08(Check):
    prop = "C08"
    counts = {"quick": 1200, "thorough": 14000}
    digests = True
    setup = {"patch_random": False}
    rule = ("One run = a scene, unusual process settings of the caller and a sequence of 6-10 calls (operations "
            "visited in turn, a third of them sampling or ellipse search, some failing), made twice in one world and "
            "once in a fresh one under the same numpy seed, once under another seed, then interrupted at random "
            "steps, then overlapped in threads; everything repeated in other processes with another hash seed. The "
            "state of numpy's real global generator is compared bit by bit, all other settings after every call and after "
            "the import of the library. "
            "Non-trivial: a call (or interruption) after which stream and settings were compared.")
    measure = "distinct (operation, statement interrupted or outcome class) pairs after which everything was compared"
    stubs = ["asynchronous exception delivery", "thread scheduler", "standard output"]
    real = ["numpy's global random generator", "process-wide settings of numpy and the interpreter"]
    assumptions = ["a call draws fewer than %d values" % (624 * MAX_BLOCKS)]

    def begin(self):
        self.stream = Stream()
        np.random.get_state()
        repr(np.array([1.5]))
        self.names = _namespace()

    # -- scenario
    def gen(self, rng, k):
        g, op = focus(rng, k)
        ops = [op]
        n = rng.randint(6, 10)
        while len(ops) < n:
            r = rng.random()
            if r < .3:
                o = g.op(rng.choice(sorted(RANDOM_OPS)))
            elif r < .6:
                o = related(g, op, rng)
            else:
                o = g.op(rng.choice(OP_NAMES))
            if rng.random() < .12:
                o = self.bad(rng, o)
            ops.append(o)
        if rng.random() < .5:                    # the focused operation also comes right after a sampling
            ops.append(copy.deepcopy(op))
        hits = [{"op": 0 if rng.random() < .4 else rng.randrange(len(ops)), "f": rng.random(),
                 "kind": rng.choice(KINDS)} for _ in range(8)]
        threads = [[rng.randrange(len(ops)) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([2, 2, 3]))]
        threads[0][0] = 0
        if rng.random() < .5:
            threads[1][0] = 0
        scene, ops = core.prune(g.scene(), ops)
        cfg = {"err": {e: rng.choice(["ignore", "warn", "call"]) for e in ERR},
               "precision": rng.choice([3, 5, 8, 8, 12]), "suppress": rng.random() < .5,
               "linewidth": rng.choice([40, 75, 120]), "reclimit": rng.choice([900, 1000, 1500, 3000]),
               "filters": rng.choice([0, 1, 3]), "buf": rng.choice([8192, 16384, 1024])}
        return {"scene": scene, "ops": ops, "hits": hits, "cfg": cfg,
                "rounds": [{"threads": threads, "seed": rng.randrange(1 << 30)} for _ in range(4)],
                "seed": rng.randrange(1 << 30), "other": rng.randrange(1 << 30)}

    def bad(self, rng, op):
        op = copy.deepcopy(op)
        slots = [(op["args"], i) for i in range(len(op["args"]))] + [(op["kw"], k) for k in sorted(op["kw"])]
        if slots:
            box, i = rng.choice(slots)
            box[i] = rng.choice([["none"], ["s", "x"], ["n", -1], ["v", []], ["n", float("nan")]])
        return op

    # -- the caller's settings
    def apply(self, cfg):
        np.seterr(**cfg["err"])
        np.seterrcall(_errcall)
        np.set_printoptions(precision=cfg["precision"], suppress=cfg["suppress"], linewidth=cfg["linewidth"])
        np.setbufsize(cfg["buf"])
        for i in range(cfg["filters"]):
            warnings.filterwarnings("error" if i % 2 else "always", category=_Foreign, message="m%d" % i)
        sys.setrecursionlimit(cfg["reclimit"])

    def reset(self):
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
        np.seterrcall(None)
        np.set_printoptions(precision=8, suppress=False, linewidth=75, threshold=1000, edgeitems=3)
        np.setbufsize(8192)
        warnings.resetwarnings()
        core.quiet()
        sys.setrecursionlimit(1000)

    def run(self, scn, st):
        saved = (sys.stderr, sys.stdin, sys.displayhook, sys.excepthook, warnings.showwarning)
        try:
            self.apply(scn["cfg"])
            return self.body(scn, st)
        finally:
            sys.stderr, sys.stdin, sys.displayhook, sys.excepthook, warnings.showwarning = saved
            self.reset()

    # -- one call
    def one(self, env, op, hook=None, limit=engine.STEP_LIMIT, path=False):
        fn = env.bind(op)
        left = []

        def run():
            try:
                return fn()
            finally:
                left.append(sys.stdout)
        d = core.call(run, hook=hook, limit=limit, path=path)
        return d, left[0]

    def body(self, scn, st):
        scene, ops = scn["scene"], scn["ops"]
        st.scenario(scn)
        rnd = self.stream
        self.light0 = light(engine.SIMOUT)
        np.random.seed(scn["seed"])
        hv = heavy()
        A = catalog.Env(self.imported(hv, st), scene, ops)
        log = []
        first = self.sequence(A, scn, st, "first time")
        self.phase(hv, "calls")
        again = self.sequence(A, scn, st, "second time, same world")
        self.equal(scn, first, again, "the same calls after the same seed give another result")
        B = catalog.Env(instrument.World(), scene, ops)
        fresh = self.sequence(B, scn, st, "fresh world", path=True)
        self.equal(scn, first, fresh, "the same calls after the same seed give another result in a fresh process")
        steps = [d.steps for d in first[0]]
        self.recorded = fresh[0]
        other = self.sequence(B, scn, st, "other seed", seed=scn["other"])
        for op, a, b in zip(ops, first[0], other[0]):
            if op["fn"] not in RANDOM_OPS and not core.agree(a, b):
                raise Violation("a call that is not random depends on the random stream", call=core.op_text(op),
                                fn=op["fn"], one=core.describe(a), other=core.describe(b))
        log += [d.out for d in first[0]] + [first[1]]
        for n, h in enumerate(scn["hits"]):
            self.hit(A, ops, h, steps, st, n)
        for n, r in enumerate(scn["rounds"]):
            log.append(self.together(A, ops, r, steps, st, n))
        self.phase(hv, "interrupted and overlapped calls")
        return tuple(log)

    def imported(self, hv, st):
        """A fresh world; importing the library is judged like a call."""
        s, detail = self.stream.read(), {"when": "the library is imported"}
        t = engine.Task()
        with engine.Solo(t):
            w = instrument.World()
            out = sys.stdout
        if self.stream.read() != s:
            raise Violation("importing the library changes numpy's random stream", **detail)
        if t.text:
            raise Violation("importing the library displays something", text="".join(t.text)[:200], **detail)
        self.settings(out, detail)
        self.phase(hv, "import")
        st.add("evaluations")
        st.add("imports")
        return w

    def phase(self, hv, what):
        now = heavy()
        hv = dict(hv)
        hv.pop("full numpy stream")
        ch = differ(hv, now)
        if not ch:
            names = _namespace()
            for n, v in self.names.items():
                if n not in names or (names[n] is not v and names[n] != v):
                    ch = {"setting": "the name " + n, "before": repr(v)[:200], "after": repr(names.get(n))[:200]}
                    break
        if ch:
            raise Violation("a process-wide setting is changed", after_phase=what, **ch)

    def settings(self, out, detail):
        ch = differ(self.light0, light(out))
        if ch:
            raise Violation("a process-wide setting is changed", **detail, **ch)

    def sequence(self, env, scn, st, what, seed=None, path=False):
        ops, rnd = scn["ops"], self.stream
        np.random.seed(scn["seed"] if seed is None else seed)
        s = rnd.read()
        res = []
        for n, op in enumerate(ops):
            try:
                d, out = self.one(env, op, path=path)
            except catalog.Unbuildable:
                raise
            s2 = rnd.read()
            detail = {"call": core.op_text(op), "fn": op["fn"], "when": what, "position": n}
            if d.out[0] == "abort":
                raise Violation("a call does not end", why=d.out[1], **detail)
            self.stream_ok(op, s, s2, d, detail)
            self.settings(out, detail)
            st.add("evaluations")
            st.case(what, n)
            st.inter.add(hash((op["fn"], d.out[0], d.out[1] if d.out[0] == "raise" else d.out[1][0])))
            s = s2
            res.append(d)
        return res, core.digest(s)

    def stream_ok(self, op, s, s2, d, detail):
        if op["fn"] not in RANDOM_OPS:
            if s2 != s:
                raise Violation("a call that is not random changes numpy's random stream", **detail)
        else:
            if not self.stream.reachable(s, s2):
                raise Violation("a call re-seeds numpy's random stream", **detail)
            if d is not None and d.out[0] == "return" and s2 == s and op["fn"].endswith("random_points") \
                    and d.out[1][0] == "a" and d.out[1][1][0] > 0:
                raise Violation("sampling does not draw from numpy's random stream", **detail)

    def equal(self, scn, a, b, kind):
        for op, x, y in zip(scn["ops"], a[0], b[0]):
            if not core.agree(x, y):
                raise Violation(kind, call=core.op_text(op), fn=op["fn"], one=core.describe(x), other=core.describe(y))
        if a[1] != b[1]:
            raise Violation(kind, what="the final state of numpy's random stream differs")

    def hit(self, env, ops, h, steps, st, n):
        op = ops[h["op"]]
        if steps[h["op"]] < 1:
            return
        if "at" not in h:
            h["at"] = core.pick_step(self.recorded[h["op"]], h["f"])
        s = self.stream.read()
        info = {}
        d, out = self.one(env, op, core.fault_hook(h["at"], h["kind"], info), limit=8 * steps[h["op"]] + 20000)
        s2 = self.stream.read()
        detail = {"call": core.op_text(op), "fn": op["fn"], "fault": h["kind"], "at step": h["at"]}
        if info:
            st.add("fault:" + h["kind"])
            st.add("evaluations")
            st.case("hit", n)
            st.inter.add(hash((op["fn"], info["site"])))
            st.pairs.add(hash((op["fn"], info["site"])))
        self.stream_ok(op, s, s2, None, detail)
        self.settings(out, detail)

    def together(self, env, ops, r, steps, st, n):
        threads = r["threads"]
        bound = [[env.bind(ops[j]) for j in t] for t in threads]
        results = [[None] * len(t) for t in threads]
        trouble, left = [], []
        cfg = (np.geterr(), np.geterrcall(), np.getbufsize())
        hard = [None]

        def body_of(i):
            def body(t):
                np.seterr(**cfg[0])
                np.seterrcall(cfg[1])
                np.setbufsize(cfg[2])
                for j, fn in enumerate(bound[i]):
                    t.limit = t.step + 8 * steps[threads[i][j]] + 20000
                    o, v = outcome_of(fn)
                    results[i][j] = core.norm(o)
                    if o[0] == "abort":
                        hard[0] = o[1]
                        raise engine.SimAbort(o[1])
                    now = (np.geterr(), np.geterrcall(), np.getbufsize())
                    if now != cfg:
                        trouble.append((i, j, now))
                left.append(sys.stdout)          # the last thread to end leaves what stays
            return body
        if "plan" in r:
            pol = PlanPolicy(len(threads), r["plan"])
        else:
            rng = random.Random(r["seed"])
            if n % 2:                            # both first calls are begun before either of them ends
                i, j = rng.sample(range(len(threads)), 2)
                pol = PlanPolicy(len(threads), [(-1, -1, i)] * (i > 0) + [
                    (x, 1 + rng.randrange(max(1, steps[threads[x][0]])), y) for x, y in ((i, j), (j, i))])
            else:
                pol = RandomPolicy(rng, len(threads), [sum(steps[j] for j in t) for t in threads])
        s = self.stream.read()
        sch = Scheduler([body_of(i) for i in range(len(threads))], pol)
        why = sch.run()
        s2 = self.stream.read()
        E.total_steps += sum(t.step for t in sch.tasks)
        st.add("fault:preemption", sch.switches)
        r["log"] = [list(x) for x in pol.log]
        calls = [[core.op_text(ops[j]) for j in t] for t in threads]
        detail = {"threads": calls, "schedule": r["log"][:12]}
        if why:
            raise Violation("overlapping calls do not end", why=why, **detail)
        st.add("evaluations")
        st.case("round", n)
        if any(ops[j]["fn"] in RANDOM_OPS for t in threads for j in t):
            if not self.stream.reachable(s, s2):
                raise Violation("overlapping calls re-seed numpy's random stream", **detail)
        elif s != s2:
            raise Violation("calls that are not random change numpy's random stream", **detail)
        if trouble:
            raise Violation("a thread's numpy error handling is changed", before=repr(cfg), after=repr(trouble[0]),
                            **detail)
        self.settings(left[-1], detail)
        return tuple(tuple(x) for x in pol.log)

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    # -- replay of "another process gives another result"
    def replay(self, scn, execute):
        if "cross" not in scn:
            return Check.replay(self, scn, execute)
        import json
        import subprocess
        import tempfile
        from .. import run
        log, v = execute(self, copy.deepcopy(scn["cross"]), core.Stats())
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "scn.json")
            with open(p, "w") as f:
                json.dump(scn["cross"], f)
            code = ("import json,sys; from sim import run, core; c = run.load('C08'); run.prepare(c); "
                    "s = json.load(open(sys.argv[1])); print('DIGEST', core.digest(run.execute(c, s, core.Stats())[0]))")
            outs = set()
            for hs in (4711, 1, 99):
                r = subprocess.run([sys.executable, "-c", code, p], cwd=run.VERIF, env=run.env_for(hs),
                                   stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                outs.add([x.split()[1] for x in r.stdout.decode().splitlines() if x.startswith("DIGEST")][0])
        outs.add(core.digest(log))
        if len(outs) > 1:
            return Violation("another process gives another result for the same seed", digests=sorted(outs))
        return v

    def freeze(self, scn):
        c = copy.deepcopy(scn)
        for r in c["rounds"]:
            if "log" in r:
                r["plan"] = r.pop("log")
        return c

    def shrink(self, scn):
        if "cross" in scn:
            return
        for i in range(len(scn["rounds"])):
            c = copy.deepcopy(scn)
            del c["rounds"][i]
            yield c
        for i in range(len(scn["hits"])):
            c = copy.deepcopy(scn)
            del c["hits"][i]
            yield c
        used = {h["op"] for h in scn["hits"]} | {j for r in scn["rounds"] for t in r["threads"] for j in t}
        for i in range(len(scn["ops"])):
            if i in used or len(scn["ops"]) == 1:
                continue
            c = copy.deepcopy(scn)
            del c["ops"][i]
            for h in c["hits"]:
                h["op"] -= h["op"] > i
            for r in c["rounds"]:
                r["threads"] = [[j - (j > i) for j in t] for t in r["threads"]]
            c["scene"], c["ops"] = core.prune(c["scene"], c["ops"])
            yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "settings": scn["cfg"], "interrupts": [(h["op"], h.get("at"), h["kind"]) for h in scn["hits"]],
                "threads": scn["rounds"][0]["threads"] if scn["rounds"] else []}


CHECK = C08()
