"""C03: a fault that hits a call is reported as itself, never disguised or swallowed."""
import copy
import sys
import warnings

import numpy as np

from .. import catalog, core, engine, instrument
from ..base import Check
from ..canon import show
from ..core import Violation
from ..engine import E, Task, Solo, outcome_of
from ..gen import focus

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
DEVICE = {
    "full disk": lambda: OSError(28, "No space left on device"),
    "broken pipe": lambda: BrokenPipeError(32, "Broken pipe"),
    "closed": lambda: ValueError("I/O operation on closed file."),
    "encoding": lambda: UnicodeEncodeError("ascii", "\xf6", 0, 1, "ordinal not in range(128)"),
    "would block": lambda: BlockingIOError(11, "write could not complete without blocking", 0),
    "device interrupt": lambda: KeyboardInterrupt("in write"),
}


class RemoteError(Exception):
    pass


SOURCE = {
    "io error": lambda: OSError(5, "Input/output error"),
    "timeout": lambda: engine.SimTimeout("remote array"),
    "memory": lambda: MemoryError("remote array"),
    "interrupt": lambda: KeyboardInterrupt("remote array"),
    "lookup": lambda: LookupError("remote array"),
    "runtime": lambda: RuntimeError("remote array"),
    "attribute": lambda: AttributeError("remote array"),
    "eof": lambda: EOFError("remote array"),
    "stop": lambda: StopIteration("remote array"),
    "index": lambda: IndexError("remote array"),
    "arithmetic": lambda: ZeroDivisionError("remote array"),
    "recursion": lambda: RecursionError("remote array"),
    "assertion": lambda: AssertionError("remote array"),
    "own": lambda: RemoteError("remote array"),
}


class Plan:
    """Decides which access to a failing source raises."""

    def __init__(self, at, make):
        self.at, self.n, self.exc, self.make = at, 0, None, make

    def touch(self):
        if self.at is None:
            self.n += 1
            return
        self.n += 1
        if self.n == self.at:
            self.exc = self.make()
            raise self.exc


class RemoteArray:
    """Array-like whose data has to be fetched; fetching may fail."""

    def __init__(self, data, plan):
        self._data, self._plan = data, plan

    def __array__(self, dtype=None):
        self._plan.touch()
        return np.array(self._data, dtype=dtype)

    # numpy replaces errors raised by these two by its own, so only __array__ fails
    def __len__(self):
        return len(self._data)

    def __getitem__(self, i):
        return self._data[i]


class Buggy:
    """A value whose conversion to float may fail."""

    def __init__(self, v, plan):
        self.v, self._plan = v, plan

    def __float__(self):
        self._plan.touch()
        return float(self.v)


_transparent = {}


def transparent(wrap, make):
    """Whether numpy itself passes on this error when it reads such an argument."""
    key = (wrap, type(make()))
    if key not in _transparent:
        ok = True
        for data in ([1.0, 2.0], [[1.0, 2.0], [3.0, 4.0]]):
            for dtype in (float, complex, None):
                plan = Plan(1, make)
                if wrap == "array":
                    x = RemoteArray(data, plan)
                elif isinstance(data[0], list):
                    x = [[Buggy(v, plan) for v in r] for r in data]
                else:
                    x = [Buggy(v, plan) for v in data]
                try:
                    np.asarray(x, dtype=dtype)
                except BaseException as e:
                    ok = ok and e is plan.exc
        _transparent[key] = ok
    return _transparent[key]


class Device:
    """Simulated output device that fails at the k-th write."""

    def __init__(self, at, make, flush=False):
        self.at, self.n, self.exc, self.make = at, 0, None, make
        self.flush_fails = flush

    def write(self, text):
        self.n += 1
        if self.at is not None and self.n >= self.at:
            if self.exc is None:
                self.exc = self.make()
            raise self.exc
        return len(text)

    def flush(self):
        pass


class C03(Check):
    prop = "C03"
    counts = {"quick": 20000, "thorough": 200000}
    rule = ("One run = one call (operations visited in turn) in a scene, executed with 14 different single faults: "
            "asynchronous exceptions at random steps, a failing or absent output stream, an argument whose data "
            "cannot be read, numpy floating-point traps, warnings turned into errors; sometimes two at once. "
            "The call must end with the very exception object that was injected or with its fault-free outcome. "
            "Non-trivial: the fault was actually delivered.")
    measure = "distinct (operation, statement or access hit, fault kind) triples"
    stubs = ["asynchronous exception delivery", "standard output device", "array-like arguments",
             "numpy random stream (seeded per call)"]
    assumptions = ["faults raised inside C code of numpy (for instance out of memory) surface when that call returns"]

    def gen(self, rng, k):
        wild = rng.random() < .15
        g, op = focus(rng, k, extreme=float(wild))
        scene, (op,) = core.prune(g.scene(), [op])
        faults = []
        slots = [("args", i) for i, a in enumerate(op.get("args", [])) if a[0] in ("p", "m", "A", "v", "mc", "n", "va")] + \
                [("kw", n) for n, a in sorted(op.get("kw", {}).items()) if a[0] in ("p", "m", "A", "v", "n")]
        for _ in range(14):
            r = rng.random() if not wild or rng.random() < .6 else rng.uniform(.88, 1)
            f = {"f": rng.random()}
            if op["fn"].endswith(".show") and rng.random() < .5:
                r = rng.uniform(0.55, 0.7)
            if r < 0.55:
                f["kind"] = rng.choice(KINDS)
                if rng.random() < .12:
                    f["second"] = [rng.choice(KINDS), rng.randint(1, 6)]
            elif r < 0.67:
                f["kind"], f["device"] = "device", rng.choice(sorted(DEVICE))
            elif r < 0.70:
                f["kind"] = "no stdout"
            elif r < 0.88 and slots:
                f["kind"], f["source"] = "source", rng.choice(sorted(SOURCE))
                f["slot"] = list(rng.choice(slots))
                f["wrap"] = rng.choice(["array", "element"])
            elif r < 0.94:
                f["kind"] = "fp trap"
            else:
                f["kind"] = "warning as error"
            faults.append(f)
        return {"scene": scene, "op": op, "faults": faults, "seed": rng.randrange(1 << 30)}

    # -- one faulted execution
    def run(self, scn, st):
        scene, op, seed = scn["scene"], scn["op"], scn["seed"]
        st.scenario(scene, op)
        base = core.alone(scene, op, seed, True)
        w = instrument.World()
        env = catalog.Env(w, scene, [op])
        log = [base.out]
        for f in scn["faults"]:
            k = f["kind"]
            what = {"call": core.op_text(op), "fn": op["fn"], "fault": f.get("device") or f.get("source") or k}
            if k in KINDS:
                if base.steps < 1:
                    continue
                if "at" not in f:
                    f["at"] = core.pick_step(base, f["f"])
                got, exc = self.asynchronous(env, op, seed, f, st)
                want = base
                what["at step"], what["of"] = f["at"], base.steps
            elif k == "device":
                if not base.text:
                    continue
                probe = Device(None, None)
                core.call(env.bind(op), seed, out=probe)
                if "at" not in f:
                    f["at"] = 1 + int(f["f"] * probe.n)
                dev = Device(f["at"], DEVICE[f["device"]])
                got = core.call(env.bind(op), seed, out=dev)
                exc = [dev.exc] if dev.exc is not None else []
                if exc:
                    st.add("fault:output " + f["device"])
                    st.inter.add(hash((op["fn"], "out", f["device"], dev.n)))
                want = base
                what["at write"] = f["at"]
            elif k == "no stdout":
                got = self.no_stdout(env, op, seed)
                if base.text:
                    st.add("fault:absent output stream")
                exc, want = [], base
            elif k == "source":
                r = self.source(env, op, seed, f, st)
                if r is None:
                    continue
                got, exc, want = r
                what["at access"], what["argument"] = f.get("at"), f["slot"]
            else:
                got, exc, want = self.trap(env, op, seed, k, base, st)
            st.add("evaluations")
            if got.out[0] == "raise" or k not in ("fp trap", "warning as error"):
                st.case(k, f.get("at"), f.get("device"), f.get("source"), str(f.get("slot")))
            log.append(got.out)
            if got.out[0] == "abort":
                raise Violation("a faulted call does not end", why=got.out[1], **what)
            if got.out[0] == "raise" and any(got.value is e for e in exc):
                continue
            if k == "fp trap" and got.out[0] == "raise" and got.out[1] == "FloatingPointError":
                continue
            if k == "warning as error" and got.out[0] == "raise" and got.out[1].endswith("Warning"):
                continue
            text_ok = k == "no stdout" or k == "device" or got.text == want.text
            if core.same(got.out, want.out) and text_ok:
                continue
            raise Violation("a fault was disguised or swallowed", expected="the injected exception, or " +
                            show(want.out), got=core.describe(got), **what)
        return tuple(log)

    def asynchronous(self, env, op, seed, f, st):
        seen = []
        second = f.get("second")

        def hook(t, site):
            if t.step == f["at"]:
                e = engine.FAULTS[f["kind"]]()
                seen.append(e)
                st.add("fault:" + f["kind"])
                st.inter.add(hash((op["fn"], site, f["kind"])))
                st.pairs.add(hash((op["fn"], site)))
                raise e
            if second and t.step == f["at"] + second[1]:
                e = engine.FAULTS[second[0]]()
                seen.append(e)
                st.add("fault:second " + second[0])
                raise e
        return core.call(env.bind(op), seed, hook), seen

    def no_stdout(self, env, op, seed):
        fn = env.bind(op)
        d = core.Done()
        t = Task(rngseed=seed)
        with Solo(t):
            sys.stdout = None
            o, d.value = outcome_of(fn)
        d.out, d.text, d.steps, d.path, d.draws = core.norm(o), "", t.step, None, t.draws
        return d

    def source(self, env, op, seed, f, st):
        where, key = f["slot"]

        def bind(plan):
            fn = env.bind(op)
            args, kw = env.last
            box = args if where == "args" else kw
            x = box[key]
            data = x.tolist() if isinstance(x, np.ndarray) else (list(x) if isinstance(x, (list, tuple)) else x)
            if not isinstance(data, list):
                if f["wrap"] != "element":
                    return None
                new = Buggy(data, plan)
            elif f["wrap"] == "array":
                new = RemoteArray(data, plan)
            else:
                if data and isinstance(data[0], list):
                    new = [[Buggy(v, plan) for v in r] for r in data]
                else:
                    new = [Buggy(v, plan) for v in data]
            box[key] = new           # the bound function uses these very containers
            return fn
        probe = Plan(None, None)
        fn = bind(probe)
        if fn is None:
            return None
        want = core.call(fn, seed)
        if probe.n == 0:
            return None
        if "at" not in f:
            f["at"] = 1 + int(f["f"] * probe.n)
        if not transparent(f["wrap"], SOURCE[f["source"]]):
            return None
        plan = Plan(f["at"], SOURCE[f["source"]])
        got = core.call(bind(plan), seed)
        if plan.exc is None:
            return None
        st.add("fault:unreadable argument, " + f["source"])
        st.inter.add(hash((op["fn"], "src", f["slot"][0], str(f["slot"][1]), f["at"], f["source"], f["wrap"])))
        return got, [plan.exc], want

    def trap(self, env, op, seed, k, base, st):
        fn = env.bind(op)
        if k == "fp trap":
            with np.errstate(all="raise"):
                got = core.call(fn, seed)
            if got.out[0] == "raise" and got.out[1] == "FloatingPointError":
                st.add("fault:floating-point trap")
                st.inter.add(hash((op["fn"], "fp", got.steps)))
        else:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                got = core.call(fn, seed)
            if got.out[0] == "raise" and got.out[1].endswith("Warning"):
                st.add("fault:warning as error")
                st.inter.add(hash((op["fn"], "warn", got.steps)))
        return got, [], base

    def shrink(self, scn):
        for i in range(len(scn["faults"])):
            if len(scn["faults"]) > 1:
                c = copy.deepcopy(scn)
                c["faults"] = [c["faults"][i]]
                yield c
        for i, f in enumerate(scn["faults"]):
            if f.get("second"):
                c = copy.deepcopy(scn)
                del c["faults"][i]["second"]
                yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "call": core.op_text(scn["op"]),
                "faults": [{k: v for k, v in f.items() if k != "f"} for f in scn["faults"]]}


CHECK = C03()
