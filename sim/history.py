"""Histories: calls, updates, replaced objects, and the reference model they are judged by.

The model of an object is its spec: what it would be built from, kept up to date by hand at every
update.  The expected outcome of a call is what it gives alone, in a pristine world, on objects
built from the current specs.
"""
import copy
import random

import numpy as np

from . import catalog, core, engine, instrument
from .canon import SCHEMA, canon, is_geo
from .catalog import Gen
from .engine import E, IDS

KW = ("extendA", "extendB", "degrees")
DELTAS = [1.0, 0.1, 1e-3, 1e-4, 1e-6, 1e-7]
TINY = [1e-5, 1e-6, 1e-7, 1e-8, 1e-10, 1e-12]


def near(rng, a):
    """An argument close to (or confusable with) another one."""
    k = a[0]
    if k == "n":
        v = a[1]
        r = rng.random()
        if isinstance(v, bool):
            return ["n", v]
        if isinstance(v, int):
            return ["n", v + rng.choice([1, 1, -1, 2])]
        if r < 0.7:
            return ["n", v + rng.choice(DELTAS)]
        if r < 0.8:
            return ["n", v * 2]
        if r < 0.9:
            return ["n", -v]
        return ["n", v + 360]
    if k == "b":
        return ["b", not a[1]]
    if k == "p":
        p = list(a[1])
        r = rng.random()
        i = rng.randrange(len(p))
        if r < 0.6:
            p[i] = p[i] + rng.choice(DELTAS)
        elif r < 0.75:
            p = p[::-1]
        elif r < 0.9:
            p[i] = -p[i]
        else:
            p = [-x for x in p]
        return ["p", p, a[2]]
    if k == "m":
        m = copy.deepcopy(a[1])
        r = rng.random()
        if r < 0.2 and len(m) > 1:
            m = m[::-1]
        else:
            i = rng.randrange(len(m))
            j = rng.randrange(len(m[i]))
            m[i][j] = m[i][j] + rng.choice(DELTAS)
        return ["m", m, a[2]]
    if k == "mc":
        m = copy.deepcopy(a[1])
        z = m[rng.randrange(2)][rng.randrange(2)]
        z[rng.randrange(2)] += rng.choice(DELTAS)
        return ["mc", m, a[2]]
    if k in ("v", "va"):
        v = list(a[1])
        v[rng.randrange(len(v))] += rng.choice(DELTAS)
        return [k, v]
    if k == "s":
        return ["s", {"in": "on", "on": "in"}.get(a[1], a[1])]
    return a


def tiny(rng, slots):
    """One or all numbers of some arguments move by very little."""
    floats = []

    def visit(v, box, i):
        if isinstance(v, list):
            for j, x in enumerate(v):
                visit(x, v, j)
        elif isinstance(v, float):
            floats.append((box, i))
    for box, i in slots:
        if box[i][0] in ("n", "p", "m", "mc", "v", "va"):
            visit(box[i][1], box[i], 1)
    if not floats:
        return False
    d = rng.choice(TINY)
    for box, i in floats if rng.random() < .3 else [rng.choice(floats)]:
        box[i] += d * rng.choice([1, -1, .5]) * max(1.0, abs(box[i]))
    return True


def near_op(rng, op):
    op = copy.deepcopy(op)
    slots = [(op["args"], i) for i in range(len(op["args"]))] + [(op["kw"], k) for k in sorted(op["kw"])]
    if slots and not (rng.random() < .3 and tiny(rng, slots)):
        box, i = rng.choice(slots)
        box[i] = near(rng, box[i])
    return op


def near_spec(rng, spec):
    s = copy.deepcopy(spec)
    slots = [(s["args"], i) for i in range(len(s["args"])) if s["args"][i][0] != "o"] + \
            [(s["kw"], k) for k in sorted(s["kw"])]
    if slots and not (rng.random() < .4 and tiny(rng, slots)):
        box, i = rng.choice(slots)
        box[i] = near(rng, box[i])
    return s


def detach(pool):
    """Gives every object that is built from another object its own private one."""
    for s in list(pool):
        for i, a in enumerate(s["args"]):
            if a[0] == "o":
                c = copy.deepcopy(pool[a[1]])
                pool.append(c)
                s["args"][i] = ["o", len(pool) - 1]


def settable(spec):
    """Public attributes that may be assigned, with the place of their value in the spec."""
    cls = spec["cls"]
    if cls == "Reflection":
        return [("line", 0), ("line.A", 0), ("line.B", 0)]
    if cls == "Projection":
        if spec["args"][1][0] != "o":
            return []
        return [("D", 0), ("D.A", 0), ("D.B", 0), ("Delta", 1), ("Delta.A", 1), ("Delta.B", 1)]
    return [(n, n if n in KW else i) for i, n in enumerate(SCHEMA[cls])]


def gen_value(rng, g, spec, place, attr, pool):
    """A new value for an attribute."""
    if "." in attr:
        old = pool[spec["args"][place][1]]["args"][0 if attr.endswith("A") else 1]
        return near(rng, old) if rng.random() < .6 else g.pta()
    if attr in ("line", "D", "Delta"):
        s = g.spec("Line")
        s["kw"] = {}
        return ["spec", s]
    old = spec["kw"][place] if place in spec["kw"] else spec["args"][place]
    if rng.random() < .5:
        return near(rng, old)
    f = g.spec(spec["cls"])
    return f["kw"][place] if place in f["kw"] else f["args"][place]


class History:
    """The live world and the model side by side."""

    def __init__(self, scene, st, seed, ops=()):
        self.scene = copy.deepcopy(scene)
        self.st, self.seed = st, seed
        self.env = catalog.Env(instrument.World(), self.scene, list(ops))
        self.pool = self.scene["pool"]
        self.cache = {}
        self.log = []
        self.refresh()

    def refresh(self):
        self.before = core.snapshot(self.env)

    def arrays(self):
        """Shared arrays are part of the scene the oracle is built from."""
        self.scene["arrays"] = [a.tolist() for a in self.env.arrays]

    def expected(self, op, seed=None):
        seed = self.seed if seed is None else seed
        key = core.op_key(self.scene, op, seed)
        d = self.cache.get(key)
        if d is None:
            d = self.cache[key] = core.alone(self.scene, op, seed)
        return d

    # -- updates
    def build(self, spec):
        """Builds an object in the live world; None if its class rejects it."""
        try:
            return catalog.build_obj(self.env, spec)
        except Exception:
            return None

    def reference(self, i, spec):
        """The same spec built in a pristine world (None if the class rejects it)."""
        scene = {"pool": list(self.pool), "arrays": self.scene["arrays"]}
        scene["pool"][i] = spec
        try:
            return catalog.Env(instrument.World(), scene, [])[i]
        except Exception:
            return None

    def assign(self, i, attr, place, val, poke=False):
        """Assigns (or writes in place) an attribute of object i. False if it was not possible."""
        spec = copy.deepcopy(self.pool[i])
        obj = self.env[i]
        if val[0] == "spec":
            line = self.build(val[1])
            if line is None:
                return False
            self.pool.append(copy.deepcopy(val[1]))
            spec["args"][place] = ["o", len(self.pool) - 1]
        elif "." in attr:
            hidden = copy.deepcopy(self.pool[spec["args"][place][1]])
            hidden["args"][0 if attr.endswith("A") else 1] = val
            hidden["kw"] = {}
            self.pool.append(hidden)
            spec["args"][place] = ["o", len(self.pool) - 1]
        elif place in KW:
            spec["kw"][place] = val
        else:
            spec["args"][place] = val
        ref = self.reference(i, spec)
        if ref is None:
            return False
        target, ref_target, name = obj, ref, attr
        if "." in attr:
            first, name = attr.split(".")
            target, ref_target = getattr(obj, first), getattr(ref, first)
        if val[0] == "spec":
            new = line
        else:
            new = getattr(ref_target, name)
            if isinstance(new, np.ndarray):
                new = np.array(new)
        if poke:
            old = getattr(target, name)
            if not isinstance(old, np.ndarray) or not isinstance(new, np.ndarray) or old.shape != new.shape \
                    or not old.flags.writeable or old.dtype.kind not in "fc" \
                    or (new.dtype.kind == "c" and old.dtype.kind == "f"):
                return False
            old[...] = new
        else:
            try:
                setattr(target, name, new)
            except AttributeError:           # read-only attributes cannot be updated
                return False
        self.pool[i] = spec
        self.refresh()
        now, want = canon(obj), canon(ref)
        if not core.exact(now, want):
            raise core.Violation("an updated object does not show its new value", object=now[1], attribute=attr,
                                 shows=core.show(now), expected=core.show(want))
        return True

    def replace(self, i, spec):
        """Drops object i (its identity may be reused at once) and builds another one."""
        if self.reference(i, spec) is None:
            return False
        self.pool[i] = copy.deepcopy(spec)
        self.env.objs.pop(i, None)
        self.before = None
        IDS.collect()
        self.env[i]
        self.refresh()
        return True

    # -- calls
    def call(self, op, what, fault=None, kind=None, check=True, seed=None):
        """One call, judged. Returns the finished call or None when it was interrupted."""
        want = self.expected(op, seed)
        b = core.Bound(self.env, op)
        for i in self.env.objs:
            if i not in self.before["objs"]:
                self.before["objs"][i] = canon(self.env.objs[i])
        if want.out[0] == "abort":               # too long even alone
            return None
        hook, info = None, {}
        if fault is not None and want.steps:
            hook = core.fault_hook(1 + int(fault * want.steps), kind, info)
        d = core.call(b.fn, self.seed if seed is None else seed, hook, limit=8 * want.steps + 20000)
        if info:
            self.st.add("fault:" + kind)
            self.st.pairs.add(hash((op["fn"], info["site"])))
        detail = dict(what, call=core.op_text(op), fn=op["fn"])
        ch = core.changed(self.before, self.env) or b.changed()
        if ch:
            raise core.Violation("a call changed an object or an argument", **detail, **ch)
        if info:
            return None
        self.st.add("evaluations")
        if d.out[0] == "abort":
            raise core.Violation("a call does not end", why=d.out[1], **detail)
        if not core.agree(d, want):
            raise core.Violation("the answer depends on what happened before", expected=core.describe(want),
                                 got=core.describe(d), **detail)
        return d


def first_object(v, depth=0):
    if is_geo(v):
        return v
    if isinstance(v, (list, tuple)) and depth < 3:
        for x in v:
            o = first_object(x, depth + 1)
            if o is not None:
                return o
    if isinstance(v, dict) and depth < 3:
        for x in v.values():
            o = first_object(x, depth + 1)
            if o is not None:
                return o
    return None
