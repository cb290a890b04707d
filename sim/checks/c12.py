"""C12: saved, copied and restored objects answer exactly like the originals."""
import copy
import pickle
import random

import numpy as np

from .. import catalog, core, engine, instrument, other
from ..base import Check
from ..canon import SCHEMA, canon, is_geo, same
from ..catalog import OP_NAMES
from ..core import Violation
from ..engine import E, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..gen import focus, related, variant
from ..history import History, detach, gen_value, near_op, near_spec, settable

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
RAW_N = ["neg", "zero", "nan", "none", "np", "big"]
RAW_A = ["list", "int", "coincide", "f32", "neg", "nan", "readonly", "tuple", "fortran"]
RAW_B = ["int", "none", "npbool"]


def raw_set(obj, attr, how):
    """Puts an attribute in a state that no constructor gives (False if it does not apply)."""
    if "." in attr:
        first, attr = attr.split(".")
        obj = getattr(obj, first)
    v = getattr(obj, attr, None)
    if is_geo(v):
        obj, attr = v, "extendA"
        v = getattr(v, attr)
    if isinstance(v, bool):
        new = {"int": int(not v), "none": None, "npbool": np.bool_(not v)}.get(how, not v)
    elif isinstance(v, np.ndarray):
        if how == "coincide":
            twins = [x for n, x in sorted(vars(obj).items()) if isinstance(x, np.ndarray) and x.shape == v.shape
                     and x is not v]
            if not twins:
                return False
            new = twins[0].copy()
        elif how == "int" and v.dtype.kind == "c":
            return False
        else:
            new = {"list": v.tolist, "int": lambda: np.round(v.real).astype(int), "neg": lambda: -v,
                   "f32": lambda: v.astype(np.complex64 if v.dtype.kind == "c" else np.float32),
                   "nan": lambda: v * np.nan, "tuple": lambda: tuple(v.tolist()),
                   "fortran": lambda: np.asfortranarray(v), "readonly": v.copy}.get(how, v.copy)()
            if how == "readonly":
                new.setflags(write=False)
    elif isinstance(v, (int, float)):
        new = {"neg": -v, "zero": 0, "nan": float("nan"), "none": None, "np": np.float64(v), "big": 1e200}.get(how, v)
    else:
        return False
    try:
        setattr(obj, attr, new)
    except AttributeError:
        return False
    return True


class C12(Check):
    prop = "C12"
    counts = {"quick": 5000, "thorough": 40000}
    rule = ("One run = objects around one operation (operations visited in turn), a history of calls, updates, "
            "interrupted calls and attribute states no constructor gives, and about 4 checkpoints: pickled (protocols "
            "0-5), copied or deep-copied, alone or together, at rest, in the middle of a call (any step), beside a "
            "running thread, after an interrupted call, or while the save itself is interrupted; restored in the same "
            "world, in a fresh one or in another process with another hash seed, and partly mixed with originals. "
            "Every call on restored objects must answer what it answers on the originals; then either side is "
            "updated and both are asked again. Non-trivial: a call compared on a restored object.")
    measure = "distinct (way to save, moment, place of restore, operation) combinations"
    real = ["pickle and copy of the interpreter", "another interpreter process (one per worker) for some restores"]
    stubs = ["the moment of the checkpoint (simulation point)", "crash: only the saved bytes survive into a fresh "
             "world or process", "asynchronous exception delivery", "thread scheduler", "standard output",
             "numpy random stream (seeded per call)"]
    assumptions = ["a shallow copy is expected to be independent only of attributes being assigned",
                   "pickle and copy themselves are atomic unless the class runs Python code for them"]
    helper = None

    def gen(self, rng, k):
        for _ in range(30):
            g, op = focus(rng, k)
            if catalog.refs(op):
                break
        else:
            g, op = focus(rng, rng.randrange(len(OP_NAMES)), names=[n for n in OP_NAMES if "." in n and
                                                                     n.split(".")[0] in SCHEMA])
        ops = [op]
        for _ in range(40):
            if len(ops) >= 4:
                break
            o = related(g, op, rng)
            if catalog.refs(o):
                ops.append(o)
        ids = sorted({i for o in ops for i in catalog.refs(o)})
        steps = []
        n = rng.randint(3, 7)
        saves = 0
        while len(steps) < n or saves < 3:
            r = rng.random()
            if r < .3:
                i = rng.choice(ids) if ids else 0
                if not g.pool:
                    continue
                opts = settable(g.pool[i])
                if not opts:
                    continue
                attr, place = rng.choice(opts)
                if rng.random() < .3:
                    steps.append({"do": "raw", "obj": i, "attr": attr, "how": rng.choice(RAW_N + RAW_A + RAW_B)})
                else:
                    steps.append({"do": "set", "obj": i, "attr": attr, "place": place, "poke": rng.random() < .5,
                                  "val": gen_value(rng, g, g.pool[i], place, attr, g.pool)})
            elif r < .55:
                s = {"do": "call", "op": rng.choice(ops) if rng.random() < .7 else near_op(rng, op)}
                if rng.random() < .4:
                    s["fault"], s["kind"] = rng.random(), rng.choice(KINDS)
                steps.append(s)
            elif saves < 4:
                saves += 1
                steps.append(self.gen_save(rng, g, ids, ops))
        return {"scene": g.scene(), "ops": ops, "steps": steps, "seed": rng.randrange(1 << 30)}

    def gen_save(self, rng, g, ids, ops):
        r = rng.random()
        how = "p%d" % rng.randrange(6) if r < .55 else "deep" if r < .85 else "copy"
        s = {"do": "save", "how": how, "each": rng.random() < .3, "twice": rng.random() < .15,
             "where": "same" if how[0] != "p" else rng.choice(["world", "world", "world", "same", "process"]),
             "mix": rng.random() if rng.random() < .3 else 0,
             "when": rng.choice(["rest", "rest", "mid", "mid", "threads", "broken"])}
        if s["when"] == "mid":
            s["on"], s["f"] = rng.randrange(len(ops)), rng.random()
        elif s["when"] == "broken":
            s["f"], s["kind"] = rng.random(), rng.choice(KINDS)
        elif s["when"] == "threads":
            s["plan"] = {"seed": rng.randrange(1 << 30)}
            s["on"] = rng.randrange(len(ops))
        s["update"] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            i = rng.choice(ids) if ids else None
            if i is None:
                continue
            opts = settable(g.pool[i])
            if opts:
                attr, place = rng.choice(opts)
                s["update"].append({"side": rng.choice(["original", "restored"]), "obj": i, "attr": attr,
                                    "place": place, "poke": rng.random() < .6,
                                    "val": gen_value(rng, g, g.pool[i], place, attr, g.pool)})
        return s

    def run(self, scn, st):
        scene = copy.deepcopy(scn["scene"])
        detach(scene["pool"])
        st.scenario(scn)
        h = History(scene, st, scn["seed"], scn["ops"])
        self.weird = set()
        self.log = []
        for n, s in enumerate(scn["steps"]):
            try:
                self.step(h, scn, n, s, st)
            except catalog.Unbuildable as e:
                E.cur = None
                core.rejected(e)
        return tuple(self.log)

    def step(self, h, scn, n, s, st):
        do = s["do"]
        what = {"step": n}
        if do == "set":
            if s["obj"] not in self.weird and h.assign(s["obj"], s["attr"], s["place"], s["val"], s["poke"]):
                st.add("fault:update " + ("in place" if s["poke"] else "by assignment"))
        elif do == "raw":
            if raw_set(h.env[s["obj"]], s["attr"], s["how"]):
                self.weird.add(s["obj"])
                h.refresh()
                st.add("fault:unusual state")
        elif do == "call":
            if self.weird & set(catalog.refs(s["op"])):
                return
            h.call(s["op"], what, s.get("fault"), s.get("kind"))
        else:
            self.checkpoint(h, scn, n, s, st, what)

    # -- saving
    def saver(self, objs, s):
        how = s["how"]
        if how[0] == "p":
            proto = int(how[1])
            if s["each"]:
                def save():
                    return pickle.dumps({i: pickle.dumps(o, proto) for i, o in objs.items()})
            else:
                def save():
                    return pickle.dumps(objs, proto)
        elif how == "deep":
            if s["each"]:
                def save():
                    return Box({i: copy.deepcopy(o) for i, o in objs.items()})
            else:
                def save():
                    return Box(copy.deepcopy(objs))
        else:
            def save():
                return Box({i: copy.copy(o) for i, o in objs.items()})
        return save

    def failed(self, d, s, what):
        raise Violation("an object cannot be saved", how=s["how"], got=core.describe(d), **what)

    def save(self, h, scn, s, objs, st, what):
        """The saved data (None if there is nothing to save at that moment)."""
        h.env.world.activate()
        fn = self.saver(objs, s)
        when = s["when"]
        if when == "mid":
            return self.save_mid(h, scn, s, fn, st, what)
        if when == "threads":
            return self.save_beside(h, scn, s, fn, st, what)
        d = core.call(fn, h.seed)
        if d.out[0] != "return":
            self.failed(d, s, what)
        if when == "broken" and d.steps:      # the save runs code of the library: it may be interrupted
            info = {}
            core.call(fn, h.seed, core.fault_hook(1 + int(s["f"] * d.steps), s["kind"], info))
            st.add("fault:save interrupted by " + s["kind"])
            self.unchanged(h, what)
            d = core.call(fn, h.seed)
            if d.out[0] != "return":
                self.failed(d, s, what)
        return d.value

    def save_mid(self, h, scn, s, fn, st, what):
        op = scn["ops"][s["on"]]
        bound = h.env.bind(op)
        want = core.call(bound, h.seed, path=True)
        h.env.world.activate()
        if want.out[0] == "abort" or want.steps < 1:
            return None
        at, got = core.pick_step(want, s["f"]), []

        def hook(t, site):
            if t.step == at:
                got.append(core.call(fn, h.seed))
                st.pairs.add(hash((op["fn"], site)))
        d = core.call(bound, h.seed, hook, limit=8 * want.steps + 20000)
        if not got:
            return None
        st.add("fault:checkpoint in the middle of a call")
        if got[0].out[0] != "return":
            self.failed(got[0], s, dict(what, during=core.op_text(op)))
        if not core.agree(d, want):
            raise Violation("saving an object disturbs the call in progress", call=core.op_text(op),
                            expected=core.describe(want), got=core.describe(d), **what)
        return got[0].value

    def save_beside(self, h, scn, s, fn, st, what):
        op = scn["ops"][s["on"]]
        bound = h.env.bind(op)
        want = core.call(bound, h.seed)
        h.env.world.activate()
        dry = core.call(fn, h.seed)
        if want.out[0] == "abort":
            return None
        if dry.out[0] != "return":
            self.failed(dry, s, what)
        done = [core.Done(), core.Done()]

        def body_of(i, f):
            def body(t):
                t.rng, t.rngseed, t.text = None, h.seed, []
                t.limit = 8 * max(want.steps, dry.steps) + 20000
                o, done[i].value = outcome_of(f)
                done[i].out, done[i].text, done[i].steps = core.norm(o), core.tidy("".join(t.text)), t.step
                if o[0] == "abort":
                    raise engine.SimAbort(o[1])
            return body
        pol = PlanPolicy(2, s["plan"]["log"]) if "log" in s["plan"] else \
            RandomPolicy(random.Random(s["plan"]["seed"]), 2, [want.steps, dry.steps])
        sch = Scheduler([body_of(0, bound), body_of(1, fn)], pol)
        aborted = sch.run()
        st.add("fault:checkpoint beside a running call")
        st.add("fault:preemption", sch.switches)
        w = dict(what, beside=core.op_text(op), schedule=list(pol.log)[:12])
        if aborted:
            raise Violation("a call and a checkpoint beside it do not end", why=aborted, **w)
        if done[1].out[0] != "return":
            self.failed(done[1], s, w)
        if not core.agree(done[0], want):
            raise Violation("saving an object disturbs the call in progress", expected=core.describe(want),
                            got=core.describe(done[0]), **w)
        return done[1].value

    def unchanged(self, h, what):
        ch = core.changed(h.before, h.env)
        if ch:
            raise Violation("saving or restoring changed an original", **what, **ch)

    # -- one checkpoint
    def checkpoint(self, h, scn, n, s, st, what):
        ops = scn["ops"]
        ids = sorted({i for o in ops for i in catalog.refs(o)})
        objs = {}
        for i in ids:
            objs[i] = h.env[i]
            h.before["objs"].setdefault(i, canon(objs[i]))
        what = dict(what, saved=s["how"], at=s["when"], restored_in=s["where"])
        data = self.save(h, scn, s, objs, st, what)
        if data is None:
            return
        self.unchanged(h, what)
        # what the originals answer
        answers, limits, use = [], [], []
        for op in ops:
            d = core.call(h.env.bind(op), h.seed)
            if d.out[0] != "abort":
                answers.append(d)
                limits.append(8 * d.steps + 20000)
                use.append(op)
        self.unchanged(h, what)
        shown = {i: canon(o) for i, o in objs.items()}
        st.add("fault:restore in " + {"same": "the same world", "world": "a fresh world",
                                      "process": "another process"}[s["where"]])
        if s["where"] == "process" and not s["each"]:
            if C12.helper is None:
                C12.helper = other.Other()
            r = C12.helper.ask(data, {"pool": h.pool, "arrays": h.scene["arrays"]}, use, h.seed, limits)
            if r[0] != "ok":
                raise Violation("a saved object cannot be restored", got=r[1], **what)
            for i in ids:
                self.same_value(i, r[1].get(i), shown[i], what)
            for op, a, (out, text) in zip(use, answers, r[2]):
                self.same_answer(op, a, out, text, s, st, n, what)
            return
        world = h.env.world if s["where"] == "same" else instrument.World()
        again = self.restored(world, data, s, what)
        for i in ids:
            self.same_value(i, canon(again.get(i)), shown[i], what)
            if again[i] is objs[i]:
                raise Violation("a copy is the object itself", object=shown[i][1], **what)
        if s["twice"]:                        # saved and restored once more
            s2 = dict(s, when="rest")
            world.activate()
            d = core.call(self.saver(again, s2), h.seed)
            if d.out[0] != "return":
                self.failed(d, s2, dict(what, again="a second time"))
            again = self.restored(world, d.value, s2, what)
            for i in ids:
                self.same_value(i, canon(again.get(i)), shown[i], what)
        mixed = {}
        if s["mix"] and s["where"] == "same":
            for j, i in enumerate(ids):
                if int(s["mix"] * 1024) >> (j % 10) & 1:
                    mixed[i] = objs[i]
        world.activate()
        scene = {"pool": h.pool, "arrays": h.scene["arrays"]}
        for op, a, d in zip(use, answers, other.answer(world, scene, {**again, **mixed}, use, h.seed, limits)):
            self.same_answer(op, a, d.out, d.text, s, st, n, what)
        self.unchanged(h, what)
        if not self.weird & set(ids):
            self.independent(h, scn, s, world, again, ids, use, limits, st, what)

    def restored(self, world, data, s, what):
        if isinstance(data, Box):
            return data.objs
        d = other.restore(world, data)
        if d.out[0] != "return":
            raise Violation("a saved object cannot be restored", got=core.describe(d), **what)
        r = d.value
        if s["each"]:
            out = {}
            for i, b in r.items():
                d = other.restore(world, b)
                if d.out[0] != "return":
                    raise Violation("a saved object cannot be restored", got=core.describe(d), **what)
                out[i] = d.value
            return out
        return r

    def same_value(self, i, got, want, what):
        if got is None or not core.exact(got, want):
            raise Violation("a restored object differs from the original", object=i, original=core.show(want),
                            restored=core.show(got), **what)

    def same_answer(self, op, a, out, text, s, st, n, what):
        st.add("evaluations")
        st.case(n, op["fn"])
        st.inter.add(hash((s["how"], s["when"], s["where"], op["fn"])))
        self.log.append(out)
        if not same(out, a.out) or text != a.text:
            raise Violation("a restored object answers differently", call=core.op_text(op), fn=op["fn"],
                            original=core.describe(a), restored_object={"outcome": core.show(out), "printed": text[:200]},
                            **what)

    # -- later changes on either side
    def independent(self, h, scn, s, world, again, ids, use, limits, st, what):
        if not s["update"]:
            return
        hc = History({"pool": h.pool, "arrays": h.scene["arrays"]}, st, h.seed)
        hc.env.world, hc.env.g, hc.env.objs = world, world.g, dict(again)
        hc.refresh()
        for u in s["update"]:
            if s["how"] == "copy" and (u["poke"] or "." in u["attr"]):
                continue
            mine, theirs = (h, hc) if u["side"] == "original" else (hc, h)
            if not mine.assign(u["obj"], u["attr"], u["place"], u["val"], u["poke"]):
                continue
            st.add("fault:update of the " + u["side"])
            w = dict(what, update="%s of the %s object %d (%s)" % (u["attr"], u["side"], u["obj"],
                                                                 "in place" if u["poke"] else "assigned"))
            ch = core.changed(theirs.before, theirs.env)
            if ch:
                raise Violation("an update shows in the other object too", **w, **ch)
            for op in use:
                for side, x in (("original", h), ("restored", hc)):
                    want = x.expected(op)
                    if want.out[0] == "abort":
                        continue
                    x.env.world.activate()
                    d = core.call(x.env.bind(op), x.seed, limit=8 * want.steps + 20000)
                    st.add("evaluations")
                    if not core.agree(d, want):
                        raise Violation("the answer is wrong after an update of one side", call=core.op_text(op),
                                        fn=op["fn"], asked=side, expected=core.describe(want), got=core.describe(d), **w)

    def end(self, st):
        if C12.helper is not None:
            C12.helper.p.stdin.close()
            C12.helper.p.wait()
            C12.helper = None

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", v.detail.get("object", "")))

    def shrink(self, scn):
        n = len(scn["steps"])
        for size in (n // 2, 1):
            for a in range(0, n, max(1, size)):
                if size and n - size >= 1:
                    c = copy.deepcopy(scn)
                    del c["steps"][a:a + size]
                    yield c
        for i, s in enumerate(scn["steps"]):
            if s["do"] == "save":
                for key, simple in (("twice", False), ("each", False), ("mix", 0), ("update", [])):
                    if s[key]:
                        c = copy.deepcopy(scn)
                        c["steps"][i][key] = simple
                        yield c
                if s["when"] != "rest":
                    c = copy.deepcopy(scn)
                    c["steps"][i]["when"] = "rest"
                    yield c
        for i in range(1, len(scn["ops"])):
            if not any(s.get("on") for s in scn["steps"]):
                c = copy.deepcopy(scn)
                del c["ops"][i]
                yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "steps": [{k: v for k, v in s.items() if k not in ("op", "val", "update")} for s in scn["steps"]]}


class Box:
    """Holds copies, opaque to canon()."""

    def __init__(self, objs):
        self.objs = objs


CHECK = C12()
