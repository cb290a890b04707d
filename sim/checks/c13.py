"""C13: nothing is retained: a process can use the library without end."""
import copy
import gc
import random
import warnings
import weakref

import numpy as np

from .. import catalog, core, instrument, retained
from ..base import Check
from ..canon import is_geo
from ..core import Violation
from ..engine import E
from ..gen import focus, related
from ..history import first_object

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
PHASE = 12
BUDGET = 20000000
LONG = [200, 400, 800, 1600, 3200, 6400]      # calls after which growth is looked at again


def jitter(rng, a, x, i=0):
    """An argument of the same kind with another value (i: what is added to a count)."""
    k = a[0]
    if k == "n":
        v = a[1]
        if isinstance(v, int):
            r = rng.random()
            if isinstance(v, bool) or r < .2:
                return a
            if r < .8:
                return ["n", v + i]
        return ["n", v + x]
    if k == "p":
        p = list(a[1])
        p[rng.randrange(len(p))] += x
        return ["p", p, a[2]]
    if k in ("m", "mc"):
        m = copy.deepcopy(a[1])
        i = rng.randrange(len(m))
        if k == "m":
            m[i][rng.randrange(len(m[i]))] += x
        else:
            m[i][rng.randrange(2)][rng.randrange(2)] += x
        return [k, m, a[2]]
    if k in ("v", "va"):
        v = list(a[1])
        if v:
            v[rng.randrange(len(v))] += x
        return [k, v]
    return a


def jitter_all(rng, box, x, i=0):
    box["args"] = [jitter(rng, a, x, i) for a in box["args"]]
    for k in box["kw"]:
        box["kw"][k] = jitter(rng, box["kw"][k], x, i)


MOST = {"unimodular_matrices": 40, "SteinerChain": 300, "SteinerChain_phi0_": 300}       # costly counts


def count(fn, n):
    """The n-th count: new every time, and on average always the same (a bounded cache must not seem to grow)."""
    if n < 4 * PHASE and fn not in MOST:
        return n * 17 % (4 * PHASE)
    m = MOST.get(fn, 6400)
    return n * {40: 17, 300: 119, 6400: 2473}[m] % m


def belongings(env):
    """Ids of the objects and arrays that stay in use, and of the arrays they consist of."""
    ids, todo = set(), [env.objs[i] for i in sorted(env.objs)] + list(env.arrays)
    while todo:
        x = todo.pop()
        if id(x) in ids or not (is_geo(x) or isinstance(x, (np.ndarray, list, tuple))):
            continue
        ids.add(id(x))
        if isinstance(x, np.ndarray):
            todo.append(x.base)
        elif isinstance(x, (list, tuple)):
            todo += x
        elif hasattr(x, "__dict__"):
            todo += vars(x).values()
    return ids


def harvest(v, out, skip, depth=0):
    """Weak references to the objects and arrays of a result or of arguments."""
    if id(v) in skip:
        return
    if is_geo(v):
        ref(v, out)
        for x in list(vars(v).values()) if hasattr(v, "__dict__") else ():
            if isinstance(x, np.ndarray) and id(x) not in skip:
                ref(x, out)
    elif isinstance(v, np.ndarray):
        ref(v, out)
    elif isinstance(v, (list, tuple)) and depth < 3:
        for x in v:
            harvest(x, out, skip, depth + 1)
    elif isinstance(v, dict) and depth < 3:
        for x in v.values():
            harvest(x, out, skip, depth + 1)


def ref(x, out):
    try:
        out.append(weakref.ref(x))
    except TypeError:
        pass


class C13(Check):
    prop = "C13"
    counts = {"quick": 1600, "thorough": 40000}
    rule = ("One run = four calls (operations visited in turn) repeated in a history of 48 calls in one process, every "
            "one with values never used before, on objects dropped at once or on objects that stay in use; a quarter of "
            "them interrupted at a random step, some given invalid arguments or a failing output device. After each 12 "
            "calls everything reachable from the package's modules and classes, from the objects in use and the dropped "
            "objects that are still alive is counted, as are threads, files and hooks of the process. If the count keeps "
            "growing the history goes on for up to 6400 calls: a bounded cache fills up, a leak goes on. Chains of calls, "
            "each result being an operand of the next, are measured alike. At the end a "
            "call may take no more steps than alone (twice, plus 200). Non-trivial: a measured history.")
    measure = "distinct (operation, statement interrupted or way the call ended, dropped or staying object) triples"
    stubs = ["asynchronous exception delivery", "standard output", "numpy random stream (seeded per call)"]
    real = ["the interpreter's garbage collector"]
    assumptions = ["what a cache may retain is bounded by about 4000 entries"]

    def begin(self):
        gc.collect()

    def gen(self, rng, k):
        g, op = focus(rng, k)
        ops = [op, related(g, op, rng), related(g, op, rng), g.op()]
        scene, ops = core.prune(g.scene(), ops)
        return {"scene": scene, "ops": ops, "calls": 4 * PHASE, "seed": rng.randrange(1 << 30),
                "faults": rng.choice([0.0, .15, .3]), "weights": [.7, .12, .12, .06]}

    # -- one call of the history
    def one(self, world, keep, scn, rng, n, base, refs, st):
        j = rng.choices(range(len(scn["ops"])), scn["weights"][:len(scn["ops"])])[0]
        op = copy.deepcopy(scn["ops"][j])
        x = (n + 1) * 1.0009765625e-5 * rng.choice([1, -1])
        stay = rng.random() < .4
        jitter_all(rng, op, x, count(op["fn"], n))
        if rng.random() < .08:
            slots = [(op["args"], i) for i in range(len(op["args"]))] + [(op["kw"], k) for k in sorted(op["kw"])]
            if slots:
                box, i = rng.choice(slots)
                box[i] = rng.choice([["none"], ["s", "x%d" % n], ["n", -1 - x], ["v", [x]]])
        if stay:
            env = keep
        else:
            scene = copy.deepcopy(scn["scene"])
            for s in scene["pool"]:
                jitter_all(rng, s, x)
            scene["arrays"] = [(np.asarray(a) + x).tolist() for a in scene["arrays"]]
            env = catalog.Env(world, scene, [])
        hook, info, out = None, {}, None
        if rng.random() < scn["faults"] and base[j].steps:
            at, kind = core.pick_step(base[j], rng.random()), rng.choice(KINDS)
            hook = core.fault_hook(at, kind, info)
        elif rng.random() < .06:
            out = BadDevice(rng.randrange(200))
        try:
            fn = env.bind(op)
        except catalog.Unbuildable:
            return
        d = core.call(fn, scn["seed"] + n, hook, out=out)
        st.c["calls"] = st.c.get("calls", 0) + 1
        if info:
            st.add("fault:" + kind)
            st.pairs.add(hash((op["fn"], info["site"])))
        if out is not None and out.hit:
            st.add("fault:output device")
        st.inter.add(hash((op["fn"], info.get("site", d.out[0]), stay)))
        skip = belongings(keep)
        if not stay:
            for o in env.objs.values():
                harvest(o, refs, skip)
        if d.out[0] == "return":
            harvest(d.value, refs, skip)
        harvest(env.last[0], refs, skip)

    def measure_now(self, world, keep, refs):
        mods, held = retained.of(world, [keep.objs[i] for i in sorted(keep.objs)] + keep.arrays)
        return mods + held

    def alive(self, refs):
        for _ in range(6):           # numpy's objects need several collections
            gc.collect()
            n = sum(r() is not None for r in refs)
            if not n:
                break
        return n

    def run(self, scn, st):
        saved = list(warnings.filters), warnings.showwarning
        warnings.simplefilter("default")         # as in a program that did not touch them: what was shown is noted
        warnings.showwarning = lambda *a, **k: None
        try:
            return self.history(scn, st)
        finally:
            warnings.filters[:], warnings.showwarning = saved
            warnings._filters_mutated()

    def history(self, scn, st):
        scene, ops, seed = scn["scene"], scn["ops"], scn["seed"]
        st.scenario(scene, ops)
        rng = random.Random(seed)
        base = [core.alone(scene, op, seed, True) for op in ops]
        world = instrument.World()
        keep = catalog.Env(world, scene, ops)
        for i in range(len(scene["pool"])):
            keep[i]
        keep.bind(ops[0])
        refs = []
        proc = None
        sizes = []
        n = 0
        while n < scn["calls"]:
            for _ in range(PHASE):
                self.one(world, keep, scn, rng, n, base, refs, st)
                n += 1
            keep.last = ((), {})
            sizes.append(self.measure_now(world, keep, refs))
            if proc is None:
                proc = retained.process()
        st.add("evaluations")
        st.case("history")
        alive = self.alive(refs)
        what = {"call": core.op_text(ops[0]), "fn": ops[0]["fn"]}
        log = [tuple(sizes), alive]
        self.chain(world, scn, st, what)
        grows = sizes[-1] > sizes[0] or alive > 0
        if grows:
            self.escalate(world, keep, scn, rng, n, base, refs, st, sizes, alive, what)
        now = retained.process()
        for k in now:
            if now[k] > proc[k]:
                self.using_up(world, keep, scn, rng, n, base, refs, st, k, what)
        for j, op in enumerate(ops):
            d = core.call(keep.bind(op), seed, limit=2 * base[j].steps + 20000)
            if d.out[0] == "abort" or d.steps > 2 * base[j].steps + 200:
                raise Violation("a call takes longer and longer", steps_alone=base[j].steps, steps_now=d.steps,
                                calls_before=n, **dict(what, call=core.op_text(op), fn=op["fn"]))
        return tuple(log)

    def escalate(self, world, keep, scn, rng, n, base, refs, st, sizes, alive, what):
        """Goes on: either the growth ends, or it is one."""
        track = [(n, sizes[-1] - sizes[0], alive)]
        del refs[:max(0, len(refs) - 4000)]
        start = E.total_steps
        scn = dict(scn, weights=[1] * len(scn["ops"]))
        for stop in LONG:
            while n < stop:
                self.one(world, keep, scn, rng, n, base, refs, st)
                n += 1
            keep.last = ((), {})
            alive = self.alive(refs)
            track.append((n, self.measure_now(world, keep, refs) - sizes[0], alive))
            (n0, s0, a0), (n1, s1, a1) = track[-2], track[-1]
            if (s1 <= 1.1 * s0 or s1 <= 0) and a1 <= a0:
                st.add("growth that ended")
                return
            if len(track) > 4 and E.total_steps - start > BUDGET:
                break
        if s1 <= 1.5 * s0 and a1 <= 1.5 * a0:
            st.add("growth that slowed down")
            return
        raise Violation("the library retains more and more", calls_growth_and_dropped_objects_alive=track, **what)

    def chain(self, world, scn, st, what):
        """Each result is the start of the next call: it must not keep what it was made from."""
        for op in scn["ops"]:
            env = catalog.Env(world, scn["scene"], scn["ops"])
            for i in sorted(set(catalog.refs(op))):
                env[i]
            sizes, n, start = [], 0, None
            for stop in (3, 6, 12, 24, 48, 96, 192, 384):
                while n < stop:
                    try:
                        fn = env.bind(op)
                    except catalog.Unbuildable:
                        return
                    d = core.call(fn, scn["seed"] + n)
                    r = first_object(d.value) if d.out[0] == "return" else None
                    n += 1
                    if start is None:            # the operand that the result replaces
                        for i in sorted(env.objs):
                            if r is not None and type(env.objs[i]) is type(r) and i in catalog.refs(op) \
                                    and env.objs[i] is not r:
                                start = i
                                break
                    if start is None or type(r) is not type(env.objs[start]):
                        n = None
                        break
                    env.objs[start] = r
                    del r, d, fn
                if n is None:
                    break
                env.last = ((), {})
                gc.collect() if len(sizes) > 2 else None
                sizes.append(retained.size([vars(m) for m in world.modules.values()] + [env.objs[start]]))
                if len(sizes) > 3 and sizes[-1] <= sizes[-2]:
                    break
            if start is not None:
                st.case("chain", op["fn"])
                st.add("chains of results")
            if len(sizes) == 8 and all(x < y for x, y in zip(sizes, sizes[1:])):
                raise Violation("results keep what they were made from", sizes_along_the_chain=sizes,
                                **dict(what, call=core.op_text(op), fn=op["fn"]))

    def using_up(self, world, keep, scn, rng, n, base, refs, st, k, what):
        track = [retained.process()[k]]
        for _ in range(4):
            for _ in range(100):
                self.one(world, keep, scn, rng, n, base, refs, st)
                n += 1
            track.append(retained.process()[k])
            if track[-1] <= track[-2] + (4 if k == "noted warnings" else 0):
                return
        raise Violation("the library uses up something of the process", of=k, counts=track, **what)

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def shrink(self, scn):
        for j in range(len(scn["ops"]) - 1, -1, -1):
            if len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j], c["weights"][j]
                c["scene"], c["ops"] = core.prune(c["scene"], c["ops"])
                yield c
        if scn["faults"]:
            c = copy.deepcopy(scn)
            c["faults"] = 0.0
            yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "history": scn["calls"], "share of interrupted calls": scn["faults"]}


class BadDevice:
    """Takes some characters, then fails."""

    def __init__(self, n):
        self.left, self.hit = n, False

    def write(self, s):
        self.left -= len(s)
        if self.left < 0:
            self.hit = True
            raise OSError(28, "simulated: no space left on device")
        return len(s)

    def flush(self):
        pass


CHECK = C13()
