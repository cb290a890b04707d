"""C05: objects and results never share memory with the caller's buffers or with each other."""
import copy
import random

import numpy as np

from .. import catalog, core, engine, instrument
from ..base import Check
from ..canon import canon, is_geo, show
from ..core import Violation
from ..engine import E
from ..gen import focus, related, variant

JUNK = 977.25


def scribble(x):
    """Overwrites everything in a buffer. False if nothing could be written."""
    if isinstance(x, np.ndarray):
        if not x.flags.writeable or x.dtype.kind not in "fciu" or x.size == 0:
            return False
        x[...] = JUNK if x.dtype.kind in "fc" else 977
        return True
    if isinstance(x, list):
        done = False
        for i, v in enumerate(x):
            if isinstance(v, (list, np.ndarray)):
                done = scribble(v) or done
            elif isinstance(v, (int, float, complex, np.number)):
                x[i] = type(v)(977)
                done = True
        return done
    return False


def leaves(v, out=None, depth=0):
    """All distinct buffers (arrays, lists of numbers) reachable from a result through public means."""
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        if v.dtype != object and v.size and not any(v is o for o in out):
            out.append(v)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list) and v and all(isinstance(x, (int, float, complex)) for x in v):
            out.append(v)
        for x in v:
            leaves(x, out, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            leaves(x, out, depth + 1)
    elif is_geo(v) and depth < 6 and hasattr(v, "__dict__"):
        for k, x in sorted(vars(v).items()):
            if not k.startswith("_"):
                leaves(x, out, depth + 1)
    return out


def copies(ls):
    return [np.array(x) if isinstance(x, np.ndarray) else list(x) for x in ls]


def equal(a, b):
    return core.exact(canon(a), canon(b))


class Buffers(catalog.Env):
    """Builds objects from buffers of many shapes that the caller keeps."""

    def __init__(self, world, scene, rng, ops=()):
        self.rng, self.held, self.n = rng, [], 0
        catalog.Env.__init__(self, world, scene, list(ops))

    def __getitem__(self, i):
        o = self.objs.get(i)
        if o is not None:
            return o
        s = self.specs[i]
        try:
            args = [self.form(a, True) for a in s["args"]]
            o = self.objs[i] = getattr(self.g, s["cls"])(*args, **{k: catalog.build_arg(self, a)
                                                                  for k, a in s["kw"].items()})
        except catalog.Unbuildable:
            raise
        except Exception as e:
            raise catalog.Unbuildable(self, i, e)
        for a, v in zip(s["args"], args):
            if isinstance(v, (list, np.ndarray)):
                self.held.append((i, v))
            elif a[0] == "o":                    # a line a transformation was built from
                self.held.append((i, v))
        return o

    def form(self, a, any_form):
        """The value of an argument, in a seeded choice of buffer."""
        k = a[0]
        r = self.rng
        if k == "o":
            return catalog.build_obj(self, self.specs[a[1]])   # a private object nobody else uses
        if k == "p" and (any_form or a[2] == "a"):
            p = [float(x) for x in a[1]]
            if len(p) != 2:
                return catalog.build_arg(self, a)
            f = r.randrange(9 if any_form else 6)
            if f == 0:
                return np.array(p)
            if f == 1:
                return np.array([9.0] + p + [9.0])[1:3]
            if f == 2:
                return np.array([p[0], 9.0, p[1], 9.0])[::2]
            if f == 3:
                return np.array(p[::-1])[::-1]
            if f == 4:
                return np.array([[8.0, 8.0], p, [7.0, 7.0]])[1]
            if f == 5:
                return np.array([[p[0], 5.0], [p[1], 6.0]])[:, 0]
            if f == 6 and all(abs(x) < 1e15 and x == int(x) for x in p):
                return np.array([int(x) for x in p])
            if f == 7:
                return [np.float64(x) for x in p]
            return list(p)
        if k == "p" and a[2] == "l":
            return [float(x) for x in a[1]] if all(isinstance(x, (int, float)) for x in a[1]) else list(a[1])
        if k == "m" and (any_form or a[2] == "a"):
            m = np.array(a[1], dtype=float).reshape((-1, 2))
            f = r.randrange(7 if any_form else 5)
            if f == 0:
                return m.copy()
            if f == 1:
                return np.asfortranarray(m.copy())
            if f == 2:
                return np.array(m.T.copy()).T
            if f == 3:
                big = np.full((m.shape[0] + 2, 4), 9.0)
                big[1:-1, 1:3] = m
                return big[1:-1, 1:3]
            if f == 4:
                big = np.full((2 * m.shape[0], 2), 9.0)
                big[::2] = m
                return big[::2]
            if f == 5:
                return [np.array(row) for row in m.tolist()]
            return m.tolist()
        if k == "mc":
            m = np.array([[complex(*z) for z in row] for row in a[1]])
            f = r.randrange(5 if any_form else 3)
            if f == 0 or (a[2] == "a" and not any_form and f > 2):
                return m.copy()
            if f == 1:
                return np.asfortranarray(m.copy())
            if f == 2:
                big = np.full((4, 4), 9j)
                big[1:3, 1:3] = m
                return big[1:3, 1:3]
            if f == 3:
                return [np.array(row) for row in m.tolist()]
            return m.tolist()
        if k == "va":
            return np.array([9.0] + [float(x) for x in a[1]])[1:]
        return catalog.build_arg(self, a)

    def bind(self, op):
        """As Env.bind, but arguments are buffers the caller keeps (in env.last)."""
        args = [self.env_arg(a) for a in op.get("args", [])]
        kw = {k: self.env_arg(a) for k, a in op.get("kw", {}).items()}
        self.last = (args, kw)
        name = op["fn"].split(".")[-1]
        if op.get("self") is not None:
            obj = self[op["self"]]
            if op.get("prop"):
                return lambda: getattr(obj, name)
            return lambda: getattr(obj, name)(*args, **kw)
        target = getattr(self.g, op["fn"].split(".")[0])
        if "." in op["fn"]:
            target = getattr(target, name)
        return lambda: target(*args, **kw)

    def env_arg(self, a):
        if a[0] == "o":
            return self[a[1]]
        if a[0] == "A":
            return self.arrays[a[1]]
        return self.form(a, False)

    def write(self, which=None):
        """The caller reuses the buffers (and lines) it built objects from."""
        n = 0
        for i, b in self.held:
            if which is not None and i != which:
                continue
            if is_geo(b):
                for x in leaves(b):
                    n += scribble(x)
            else:
                n += scribble(b)
        return n


class C05(Check):
    prop = "C05"
    counts = {"quick": 13200, "thorough": 330000}
    rule = ("One run = one call (operations visited in turn) on objects built from caller-kept buffers of many "
            "shapes (views, strided, transposed, integer, lists, lines), and 8 foreign writes: into construction "
            "buffers before, after and in the middle of calls, into every array of a result, into arguments and "
            "receivers after the call. Values of all other objects, results and answers must not move, and the "
            "same calls repeated must answer as in a pristine world. Non-trivial: something was overwritten.")
    measure = "distinct (operation, kind of write, statement in progress) triples"
    stubs = ["a foreign writer at simulation points", "standard output", "numpy random stream (seeded per call)"]
    assumptions = ["buffers that numpy marks read-only are not written"]

    def gen(self, rng, k):
        g, op = focus(rng, k, neutral=.12)
        others = [related(g, op, rng), variant(g, op, rng)]
        acts = []
        for _ in range(8):
            kind = rng.choice(["buffers", "buffers", "mid", "mid", "result", "result", "result", "args", "args",
                               "objects"])
            acts.append({"kind": kind, "f": rng.random(), "form": rng.randrange(1 << 30), "one": rng.random() < .3,
                         "probe": rng.choice([None, 0, 1])})
        scene, ops = core.prune(g.scene(), [op] + others)
        return {"scene": scene, "op": ops[0], "others": ops[1:], "acts": acts, "seed": rng.randrange(1 << 30)}

    def run(self, scn, st):
        scene, op, others, seed = scn["scene"], scn["op"], scn["others"], scn["seed"]
        st.scenario(scene, op, seed)
        base = core.alone(scene, op, seed, True)
        obase = [core.alone(scene, o, seed) for o in others]
        if base.out[0] == "abort" or any(o.out[0] == "abort" for o in obase):
            return ("skip",)
        pristine = catalog.Env(instrument.World(), scene, [op] + others)
        want = {i: canon(o) for i, o in pristine.objs.items()}
        w = instrument.World()
        log = []
        for n, a in enumerate(scn["acts"]):
            what = {"call": core.op_text(op), "fn": op["fn"], "write into": a["kind"], "step": n}
            env = Buffers(w, scene, random.Random(a["form"]), [op] + others)
            for i, c in want.items():
                if not core.exact(c, canon(env[i])):
                    raise Violation("an object does not have the values it was built from", object=i, **what,
                                    expected=show(c), got=show(canon(env[i])))
            getattr(self, "on_" + a["kind"])(env, scn, a, base, want, what, st, log)
            if a["probe"] is not None:
                j = a["probe"]
                env2 = catalog.Env(w, scene, [others[j]])
                self.again(env2, others[j], seed, obase[j], what, "another call answers differently after a write")
        return tuple(log)

    # -- the judges
    def values(self, env, want, what, skip=()):
        for i, c in want.items():
            if i not in skip and not core.exact(c, canon(env[i])):
                raise Violation("a write changed an object", object=i, cls=c[1], before=show(c),
                                after=show(canon(env[i])), **what)

    def again(self, env, op, seed, base, what, kind):
        d = core.call(env.bind(op), seed, limit=8 * base.steps + 20000)
        if not core.agree(d, base):
            raise Violation(kind, then=core.op_text(op), expected=core.describe(base), got=core.describe(d), **what)
        return d

    def hit(self, st, n, what, site=0):
        if n:
            st.add("fault:write into " + what["write into"])
            st.add("evaluations")
            st.case(what["write into"], what["step"])
            st.inter.add(hash((what["fn"], what["write into"], site)))

    # -- the writes
    def on_buffers(self, env, scn, a, base, want, what, st, log):
        op, seed = scn["op"], scn["seed"]
        if a["f"] < .4:
            self.again(env, op, seed, base, what, "a call differs")
        which = sorted(env.objs)[int(a["f"] * 997) % len(env.objs)] if a["one"] and env.objs else None
        self.hit(st, env.write(which), what)
        self.values(env, want, what)
        d = self.again(env, op, seed, base, what, "an object answers differently after a write into its buffers")
        log.append(d.out)

    def on_mid(self, env, scn, a, base, want, what, st, log):
        op, seed = scn["op"], scn["seed"]
        if base.steps < 1:
            return
        at = core.pick_step(base, a["f"])
        first = core.call(env.bind(op), seed)
        old = leaves(first.value)
        b = core.Bound(env, op)
        info = [0, 0]

        def hook(t, site):
            if t.step == at:
                info[0] = env.write()
                for x in old:
                    info[0] += scribble(x)
                info[1] = site
        d = core.call(b.fn, seed, hook, limit=8 * base.steps + 20000)
        self.hit(st, info[0], what, info[1])
        self.values(env, want, what)
        if not core.agree(d, base):
            raise Violation("a running call sees writes into construction buffers or earlier results",
                            expected=core.describe(base), got=core.describe(d), **what)
        log.append(d.out)

    def on_result(self, env, scn, a, base, want, what, st, log):
        op, seed = scn["op"], scn["seed"]
        b = core.Bound(env, op)
        arrs = [np.array(x) for x in env.arrays]
        d = core.call(b.fn, seed, limit=8 * base.steps + 20000)
        if not core.agree(d, base):
            raise Violation("a call differs", expected=core.describe(base), got=core.describe(d), **what)
        ls = leaves(d.value)
        order = list(range(len(ls)))
        random.Random(a["form"]).shuffle(order)
        for i in order[:6]:
            before = copies(ls)
            if not scribble(ls[i]):
                continue
            self.hit(st, 1, what, len(ls))
            self.values(env, want, what)
            ch = b.changed()
            if ch:
                raise Violation("a write into a result changed an argument", **what, **ch)
            for x, y in zip(arrs, env.arrays):
                if not equal(x, y):
                    raise Violation("a write into a result changed an argument", before=show(canon(x)),
                                    after=show(canon(y)), **what)
            for j, (x, y) in enumerate(zip(before, ls)):
                if j != i and not equal(x, y):
                    raise Violation("two parts of a result share memory", before=show(canon(x)),
                                    after=show(canon(y)), **what)
        d = self.again(env, op, seed, base, what, "the same call differs after a write into its earlier result")
        log.append(d.out)

    def on_args(self, env, scn, a, base, want, what, st, log):
        op, seed = scn["op"], scn["seed"]
        fn = env.bind(op)
        args, kw = env.last
        d = core.call(fn, seed, limit=8 * base.steps + 20000)
        if not core.agree(d, base):
            raise Violation("a call differs", expected=core.describe(base), got=core.describe(d), **what)
        before = canon(d.value)
        n = 0
        for x in list(args) + list(kw.values()):
            if isinstance(x, (list, np.ndarray)):
                n += scribble(x)
        self.hit(st, n, what)
        self.values(env, want, what)
        if not core.exact(before, canon(d.value)):
            raise Violation("a write into an argument changed the result", before=show(before),
                            after=show(canon(d.value)), **what)
        for i, x in enumerate(scn["scene"]["arrays"]):
            env.arrays[i][...] = x
        d = self.again(env, op, seed, base, what, "the same call differs after a write into its earlier argument")
        log.append(d.out)

    def on_objects(self, env, scn, a, base, want, what, st, log):
        """The receiver and the objects given as arguments are updated in place after the call."""
        op, seed = scn["op"], scn["seed"]
        d = core.call(env.bind(op), seed, limit=8 * base.steps + 20000)
        if not core.agree(d, base):
            raise Violation("a call differs", expected=core.describe(base), got=core.describe(d), **what)
        before = canon(d.value)
        own = copies(leaves(d.value))
        touched = list(dict.fromkeys(catalog.refs(op)))
        n = 0
        for i in touched:
            for x in leaves(env[i]):
                n += scribble(x)
        self.hit(st, n, what)
        if not core.exact(before, canon(d.value)) or \
                not all(equal(x, y) for x, y in zip(own, leaves(d.value))):
            raise Violation("an update of the receiver or of an argument changed an earlier result",
                            before=show(before), after=show(canon(d.value)), **what)
        self.values(env, want, what, skip=touched)
        env2 = catalog.Env(env.world, scn["scene"], [op])
        d = self.again(env2, op, seed, base, what, "the call on new objects differs after an update of the old ones")
        log.append(d.out)

    def shrink(self, scn):
        for i in range(len(scn["acts"])):
            if len(scn["acts"]) > 1:
                c = copy.deepcopy(scn)
                del c["acts"][i]
                yield c
        for i, a in enumerate(scn["acts"]):
            if a["probe"] is not None:
                c = copy.deepcopy(scn)
                c["acts"][i]["probe"] = None
                yield c

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "call": core.op_text(scn["op"]),
                "writes": [a["kind"] for a in scn["acts"]]}


CHECK = C05()
