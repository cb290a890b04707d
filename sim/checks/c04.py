"""C04: an answer depends only on current values, never on what was called before."""
import copy
import random

from .. import catalog, core, engine
from ..base import Check
from ..canon import canon
from ..engine import E
from ..catalog import Gen, OP_NAMES
from ..core import Violation
from ..gen import focus, related, variant
from ..history import (History, detach, first_object, gen_value, near, near_op, near_spec, settable)

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]


class C04(Check):
    prop = "C04"
    counts = {"quick": 6000, "thorough": 60000}
    rule = ("One run = a history of about 25 steps in one world around one operation (operations visited in turn): "
            "calls and near-copies of it (one argument, keyword or receiver changed, down to 1e-7), attributes "
            "assigned or written in place, objects dropped and rebuilt with their identity reused, shared arrays "
            "overwritten, interrupted and failing calls, bursts of hundreds of calls, calls on results. Every "
            "call is compared with the same call in a pristine world on objects built from the current values. "
            "Non-trivial: a compared call that comes after at least one other step of the history.")
    measure = "distinct (previous kind of step, operation, outcome class) triples"
    stubs = ["asynchronous exception delivery", "object identities (id()) inside the package, reused eagerly",
             "standard output", "numpy random stream (seeded per call)"]
    assumptions = ["an attribute is updated to a value its constructor accepts",
                   "`Delta` of an orthogonal projection is an attribute of its own, derived only at construction"]

    def gen(self, rng, k):
        g, op = focus(rng, k)
        # near twins of the objects involved
        for i in list(dict.fromkeys(catalog.refs(op))):
            for _ in range(rng.choice([0, 1, 1, 2])):
                g.pool.append(near_spec(rng, g.pool[i]))
        for i in [i for i, s in enumerate(g.pool) if s["cls"] in ("Reflection", "Projection")]:
            for j, a in enumerate(list(g.pool[i]["args"])):
                if a[0] == "o":
                    g.pool.append(near_spec(rng, g.pool[a[1]]))
                    t = copy.deepcopy(g.pool[i])
                    t["args"][j] = ["o", len(g.pool) - 1]
                    g.pool.append(t)
        steps = [{"do": "call", "op": op}]
        last = [op]
        n = rng.randint(14, 30)
        while len(steps) < n:
            r = rng.random()
            base = rng.choice(last[-4:]) if rng.random() < .5 else op
            if r < 0.28:
                o = near_op(rng, base)
            elif r < 0.42:
                o = variant(g, base, rng)
            elif r < 0.48:
                o = self.twin_receiver(rng, g, base)
            elif r < 0.56:
                o = related(g, op, rng)
            else:
                o = None
            if o is not None:
                s = {"do": "call", "op": o}
                if rng.random() < .12:
                    s["fault"], s["kind"] = rng.random(), rng.choice(KINDS)
                steps.append(s)
                last.append(o)
                if rng.random() < .3:
                    steps.append({"do": "call", "op": base})
                continue
            ids = [i for i in catalog.refs(base)]
            if r < 0.78 and ids:
                i = rng.choice(ids)
                opts = settable(g.pool[i])
                if opts:
                    attr, place = rng.choice(opts)
                    v = gen_value(rng, g, g.pool[i], place, attr, g.pool)
                    steps.append({"do": "set", "obj": i, "attr": attr, "place": place, "val": v,
                                  "poke": rng.random() < .5})
            elif r < 0.86 and ids:
                i = rng.choice(ids)
                s = g.pool[i]
                if not any(a[0] == "o" for a in s["args"]):
                    steps.append({"do": "replace", "obj": i,
                                  "spec": near_spec(rng, s) if rng.random() < .6 else g.spec(s["cls"])})
            elif r < 0.92:
                arrs = [a[1] for o in last for a in list(o["args"]) + list(o["kw"].values()) if a[0] == "A"]
                if arrs:
                    i = rng.choice(arrs)
                    shape = g.arrays[i]
                    if shape and isinstance(shape[0], list):
                        at = [rng.randrange(len(shape)), rng.randrange(2)]
                    else:
                        at = [rng.randrange(len(shape))]
                    steps.append({"do": "array", "arr": i, "at": at, "delta": rng.choice([1.0, .1, 1e-3, 1e-6])})
            elif r < 0.97:
                steps.append({"do": "chase", "op": base, "seed": rng.randrange(1 << 30)})
            elif not any(s["do"] in ("burst", "sweep") for s in steps):
                steps.append(rng.choice([{"do": "burst", "op": base, "n": rng.choice([40, 150, 300])},
                                         {"do": "sweep", "op": base, "n": rng.choice([40, 140, 270]),
                                          "seed": rng.randrange(1 << 30)}]))
                steps.append({"do": "call", "op": base})
                continue
            else:
                continue
            if steps[-1]["do"] in ("set", "replace", "array"):
                steps.append({"do": "call", "op": base})
        steps.append({"do": "call", "op": op})
        return {"scene": g.scene(), "steps": steps, "seed": rng.randrange(1 << 30)}

    def twin_receiver(self, rng, g, op):
        o = copy.deepcopy(op)
        slots = [("self", None)] if o.get("self") is not None else []
        slots += [("args", i) for i, a in enumerate(o["args"]) if a[0] == "o"]
        if not slots:
            return near_op(rng, op)
        where, i = rng.choice(slots)
        cur = o["self"] if where == "self" else o["args"][i][1]
        same = [j for j, s in enumerate(g.pool) if s["cls"] == g.pool[cur]["cls"]]
        j = rng.choice(same)
        if where == "self":
            o["self"] = j
        else:
            o["args"][i] = ["o", j]
        return o

    def run(self, scn, st):
        scene = copy.deepcopy(scn["scene"])
        detach(scene["pool"])
        st.scenario(scn)
        h = History(scene, st, scn["seed"])
        prev = "start"
        for n, s in enumerate(scn["steps"]):
            try:
                done = self.step(h, scn, n, s, prev, st)
            except catalog.Unbuildable as e:
                E.cur = None
                core.rejected(e)
                continue
            if done:
                prev = s["do"] + (" interrupted" if s.get("fault") is not None else "") + \
                    (" " + s["attr"] if s["do"] == "set" else "")
        return tuple(h.log)

    def step(self, h, scn, n, s, prev, st):
        what = {"step": n, "after": prev}
        do = s["do"]
        if do == "set":
            if not h.assign(s["obj"], s["attr"], s["place"], s["val"], s["poke"]):
                return False
            st.add("fault:update " + ("in place" if s["poke"] else "by assignment"))
        elif do == "replace":
            if not h.replace(s["obj"], s["spec"]):
                return False
            st.add("fault:object replaced, identity reused")
        elif do == "array":
            h.env.arrays[s["arr"]][tuple(s["at"])] += s["delta"]
            h.arrays()
            h.refresh()
            st.add("fault:shared array overwritten")
        elif do == "burst":
            want = h.expected(s["op"])
            for _ in range(s["n"]):
                d = core.call(h.env.bind(s["op"]), scn["seed"], limit=8 * want.steps + 20000)
                if not core.agree(d, want):
                    raise Violation("the answer depends on what happened before", call=core.op_text(s["op"]),
                                    fn=s["op"]["fn"], expected=core.describe(want), got=core.describe(d), **what)
            st.add("fault:burst of the same call")
        elif do == "sweep":
            rng = random.Random(s["seed"])
            ops = [near_op(rng, s["op"]) for _ in range(s["n"])]
            for o in ops:
                core.call(h.env.bind(o), scn["seed"], limit=400000)
            st.add("fault:sweep of different calls")
            for o in ops[:2] + ops[-2:]:
                h.call(o, what)
        else:
            d = h.call(s["op"], what, s.get("fault"), s.get("kind"))
            if n:
                st.case(n)
            if d is not None:
                st.inter.add(hash((prev, s["op"]["fn"], d.out[0], d.out[1] if d.out[0] == "raise" else d.out[1][0])))
                h.log.append(d.out)
            if do == "chase" and d is not None:
                self.chase(h, s, d, what, st)
        return True

    def chase(self, h, s, d, what, st):
        """Calls on a result: it must answer like an object built from its public values."""
        v = first_object(d.value)
        if v is None:
            return
        try:
            spec = catalog.spec_of(canon(v))
        except ValueError:
            return
        i = len(h.pool)
        h.pool.append(spec)
        ref = h.reference(i, spec)
        if ref is None or not core.exact(canon(ref), canon(v)):
            h.pool.pop()
            return
        h.env.objs[i] = v
        rng = random.Random(s["seed"])
        g = Gen(rng, 0)
        g.pool = [copy.deepcopy(x) for x in h.pool]
        names = [n for n in OP_NAMES if n.startswith(spec["cls"] + ".") and not n.endswith(("show", "__str__"))]
        for _ in range(3):
            o = g.op(rng.choice(names))
            if o.get("self") is None:
                continue
            o["self"] = i
            used = set(catalog.refs(o))
            if any(a[0] == "A" for a in o["args"]) or any(j >= len(h.pool) for j in used):
                continue
            try:
                h.call(o, dict(what, receiver="a result of " + s["op"]["fn"]))
            except catalog.Unbuildable:
                continue
            st.add("calls on results")
        h.env.objs.pop(i, None)
        h.pool.pop()
        h.refresh()

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def shrink(self, scn):
        n = len(scn["steps"])
        for size in (n // 2, n // 4, n // 8, 1):
            if size < 1:
                continue
            for a in range(0, n, size):
                c = copy.deepcopy(scn)
                del c["steps"][a:a + size]
                yield c
        for i, s in enumerate(scn["steps"]):
            if s["do"] in ("burst", "sweep") and s["n"] > 4:
                c = copy.deepcopy(scn)
                c["steps"][i]["n"] = s["n"] // 2
                yield c
        # objects nobody mentions any more are cheap: they stay

    def describe(self, scn):
        out = []
        for s in scn["steps"][:12]:
            if "op" in s:
                out.append(s["do"] + " " + core.op_text(s["op"]) + (" interrupted" if s.get("fault") is not None else ""))
            elif s["do"] == "set":
                out.append("%s obj%d.%s" % ("poke" if s["poke"] else "set", s["obj"], s["attr"]))
            else:
                out.append({k: v for k, v in s.items() if k != "spec"})
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "first steps": out}


CHECK = C04()
