"""What all checks share: running one call alone (the oracle), snapshots, comparison, scenario code."""
import copy
import hashlib
import json
import re
import warnings

import numpy as np

from . import catalog, engine, instrument
from .canon import canon, same, show
from .engine import E, FAULTS, HarnessError, SimAbort, Solo, Task, outcome_of

ADDR = re.compile(r"0x[0-9a-fA-F]+")
QUIET_WARN = ("ignore",)


class Violation(Exception):
    """The property is broken in this run."""

    def __init__(self, kind, **detail):
        Exception.__init__(self, kind)
        self.kind = kind
        self.detail = detail


def rejected(e):
    """Whether a pristine world rejects the object too (a useless scenario); otherwise it is a violation."""
    try:
        catalog.Env(instrument.World(), e.scene, [])[e.i]
    except catalog.Unbuildable:
        return True
    raise Violation("an object cannot be built any more", object=e.scene["pool"][e.i], error=repr(e.error))


class Stats:
    """Counters of one run (merged over runs and workers by addition)."""

    def __init__(self):
        self.c = {}
        self.inter = set()        # fingerprints of distinct interleavings / fault placements
        self.pairs = set()        # distinct (call, statement) pairs a fault or a switch landed on
        self.cases = set()        # fingerprints of the distinct non-trivial evaluations
        self.tag = 0

    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n

    def scenario(self, *parts):
        """Names the scenario that the following cases belong to."""
        self.tag = hash(json.dumps(parts))

    def case(self, *key):
        self.cases.add(hash((self.tag, repr(key))))


def tidy(s):
    return ADDR.sub("0x", s) if "0x" in s else s


def norm(out):
    """Outcome with addresses removed from texts."""
    if out[0] == "raise":
        return ("raise", out[1], tidy(out[2]))
    if out[0] == "return" and out[1][0] == "s":
        return ("return", ("s", tidy(out[1][1])))
    return out


class Done:
    """Result of one finished call."""
    __slots__ = ("out", "text", "steps", "path", "value", "draws")


def call(fn, rngseed=0, hook=None, limit=engine.STEP_LIMIT, path=False, tid=0, out=None, depth=None):
    """Runs fn as one task of the simulator, outside the scheduler (a single simulated thread)."""
    d = Done()
    t = Task(tid=tid, rngseed=rngseed, limit=limit)
    t.out = out
    if path:
        rec = d.path = []
        if hook is None:
            t.hook = lambda t, site: rec.append(site)
        else:
            def both(t, site, h=hook):
                rec.append(site)
                h(t, site)
            t.hook = both
    else:
        t.hook = hook
        d.path = None
    with Solo(t):
        o, d.value = outcome_of(fn)
    d.out = norm(o)
    d.text = tidy("".join(t.text))
    d.steps = t.step
    d.draws = t.draws
    E.total_steps += t.step
    return d


def pick_step(d, f):
    """A step of a recorded call, from a number f in [0, 1): half of the time any step, half of the time
    any distinct place of the code that the call goes through (so that rare branches of long calls are
    hit as often as their inner loops), at any of the steps that are at this place."""
    if not d.path or (f * 1e4) % 1 < .5:
        return 1 + int(f * d.steps)
    where = {}
    for i, s in enumerate(d.path):
        where.setdefault(s, []).append(i + 1)
    at = where[sorted(where)[int(f * len(where))]]
    return at[int((f * 1e7) % 1 * len(at))]


def alone(scene, op, rngseed=0, path=False):
    """The oracle: the call alone, in a pristine world, on freshly built objects."""
    w = instrument.World()
    env = catalog.Env(w, scene, [op])
    return call(env.bind(op), rngseed, path=path)


def agree(a, b):
    """Same return value / exception / printed text."""
    return same(a.out, b.out) and a.text == b.text


def describe(d):
    return {"outcome": show(d.out), "printed": d.text[:200]}


def snapshot(env):
    return {"objs": {i: canon(o) for i, o in env.objs.items()}, "arrays": [canon(a) for a in env.arrays]}


def changed(before, env):
    """First object or array whose public value differs from the snapshot, or None."""
    for i, c in before["objs"].items():
        now = canon(env.objs[i])
        if not exact(c, now):
            return {"object": i, "class": c[1], "before": show(c), "after": show(now)}
    for i, c in enumerate(before["arrays"]):
        now = canon(env.arrays[i])
        if not exact(c, now):
            return {"array": i, "before": show(c), "after": show(now)}
    return None


def exact(a, b):
    """Equality with nan == nan."""
    if a == b:
        return True
    return same(a, b, 0.0, 0.0)


def op_key(scene, op, rngseed=0):
    """Everything the outcome of a call may depend on, as a string."""
    seen = {}

    def spec(i):
        if i not in seen:
            seen[i] = None
            s = scene["pool"][i]
            seen[i] = [s, [spec(j) for j in catalog.refs(s)]]
        return seen[i]
    arrs = [scene["arrays"][a[1]] for a in list(op.get("args", [])) + list(op.get("kw", {}).values())
            if a[0] == "A"]
    return json.dumps([op, [spec(i) for i in catalog.refs(op)], arrs, rngseed])


def prune(scene, ops):
    """The part of a scene that the given calls need (indices renumbered)."""
    need = []

    def visit(i):
        if i in need:
            return
        for j in catalog.refs(scene["pool"][i]):
            visit(j)
        need.append(i)
    for op in ops:
        for i in catalog.refs(op):
            visit(i)
    mapo = {i: k for k, i in enumerate(need)}
    arrs = sorted({a[1] for x in list(ops) + [scene["pool"][i] for i in need]
                   for a in list(x.get("args", [])) + list(x.get("kw", {}).values()) if a[0] == "A"})
    mapa = {i: k for k, i in enumerate(arrs)}

    def ren(x):
        x = copy.deepcopy(x)
        if x.get("self") is not None:
            x["self"] = mapo[x["self"]]
        for lst, k in [(x.get("args", []), i) for i in range(len(x.get("args", [])))] + \
                      [(x.get("kw", {}), k) for k in x.get("kw", {})]:
            if lst[k][0] == "o":
                lst[k] = ["o", mapo[lst[k][1]]]
            elif lst[k][0] == "A":
                lst[k] = ["A", mapa[lst[k][1]]]
        return x
    return ({"pool": [ren(scene["pool"][i]) for i in need], "arrays": [scene["arrays"][i] for i in arrs]},
            [ren(o) for o in ops])


def digest(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:16]


def op_text(op):
    """A readable form of a call."""
    a = [arg_text(x) for x in op.get("args", [])] + \
        ["%s=%s" % (k, arg_text(v)) for k, v in op.get("kw", {}).items()]
    name = op["fn"]
    if op.get("self") is not None:
        name = "obj%d.%s" % (op["self"], op["fn"].split(".")[1])
    return name if op.get("prop") else "%s(%s)" % (name, ", ".join(a))


def arg_text(a):
    if a[0] == "o":
        return "obj%d" % a[1]
    if a[0] == "A":
        return "array%d" % a[1]
    if a[0] in ("inf", "none"):
        return a[0]
    return json.dumps(a[1])


def fault_hook(at, kind, info):
    """Hook that raises an asynchronous exception at the given step of a call."""
    def hook(t, site):
        if t.step == at:
            e = FAULTS[kind]()
            info["exc"], info["site"] = e, site
            raise e
    return hook


def quiet():
    warnings.simplefilter("ignore")


class Bound:
    """A call bound to its arguments, which must not be changed by it."""

    def __init__(self, env, op):
        self.fn = env.bind(op)
        self.args = [a for a in list(env.last[0]) + list(env.last[1].values())
                     if isinstance(a, (list, np.ndarray))]
        self.before = [canon(a) for a in self.args]
        self.locked = [isinstance(a, np.ndarray) and not a.flags.writeable for a in self.args]

    def changed(self):
        for a, b, locked in zip(self.args, self.before, self.locked):
            if isinstance(a, np.ndarray) and a.flags.writeable == locked:
                return {"argument": show(b), "may be written to before": not locked, "and after": locked}
            c = canon(a)
            if not exact(b, c):
                return {"argument before": show(b), "argument after": show(c)}
        return None
