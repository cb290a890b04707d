"""C11: displaying an object is complete, faithful and survives a bad output device."""
import copy
import random
import re

from .. import catalog, core, device, engine
from ..base import Check
from ..canon import SCHEMA, canon
from ..core import Violation
from ..engine import E, FAULTS, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..catalog import Gen
from ..gen import related
from ..history import History, detach, gen_value, near_spec, settable

CLASSES = sorted(SCHEMA)
KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
NUMBER = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|nan|inf)")
EXTREME = [float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1e300, 1e154, 1e-300, 5e-324, 1e16, 123456789.123,
           10 ** 30, 1e-9, -1e22]


def show_op(cls, i):
    return {"fn": cls + (".__str__" if cls == "Arc" else ".show"), "self": i, "args": [], "kw": {}}


def str_op(cls, i):
    return {"fn": cls + ".__str__", "self": i, "args": [], "kw": {}}


def extreme_spec(rng, spec):
    s = copy.deepcopy(spec)
    slots = [a for a in s["args"] if a[0] in ("n", "p", "m", "mc")]
    if not slots:
        return None
    for a in rng.sample(slots, min(len(slots), rng.choice([1, 1, 2]))):
        x = rng.choice(EXTREME)
        if a[0] == "n":
            a[1] = x
        elif a[0] == "p":
            a[1] = list(a[1])
            a[1][rng.randrange(2)] = float(x)
            if rng.random() < .3:
                a[1] = [float(x), float(x)]
        elif a[0] == "m":
            a[1] = copy.deepcopy(a[1])
            a[1][rng.randrange(2)][rng.randrange(2)] = float(x)
        else:
            a[1] = copy.deepcopy(a[1])
            a[1][rng.randrange(2)][rng.randrange(2)][rng.randrange(2)] = float(x)
    return s


def degenerate_spec(rng, spec):
    """Coincident or aligned defining points, tiny figures."""
    s = copy.deepcopy(spec)
    pts = [a for a in s["args"] if a[0] == "p"]
    if len(pts) < 2:
        return None
    r = rng.random()
    if r < .5:
        a, b = rng.sample(pts, 2)
        a[1] = list(b[1])
    elif r < .7:
        for a in pts:
            a[1] = list(pts[0][1])
    elif r < .85 and len(pts) == 3:
        A, B = pts[0][1], pts[1][1]
        t = rng.choice([2, -1, .5, 3])
        pts[2][1] = [A[0] + t * (B[0] - A[0]), A[1] + t * (B[1] - A[1])]
    else:
        f = rng.choice([1e-160, 1e-200, 1e-320, 1e160])
        for a in pts:
            a[1] = [x * f for x in a[1]]
    return s


def scalars(c, skip=()):
    """The numbers that define a canonical object."""
    k = c[0]
    if k == "f":
        return [c[1]]
    if k == "z":
        return [x for x in (c[1].real, c[1].imag)]
    if k == "a":
        out = []
        for v in c[2]:
            out += scalars(v) if isinstance(v, tuple) else [v.real, v.imag] if isinstance(v, complex) else [float(v)]
        return out
    if k == "o":
        return [x for n, v in c[2] if n not in skip for x in scalars(v)]
    return []


def alike(v, w):
    if v != v or w != w:
        return v != v and w != w
    if v == w:
        return True
    return abs(v - w) <= 1e-7 * max(abs(v), abs(w)) + 6e-9


def missing(c, text, skip=()):
    """A defining number that the text does not show (or shows fewer times than it occurs), or None."""
    have = [float(x) for x in NUMBER.findall(text)]
    need = scalars(c, skip)
    for v in need:
        if v == 0:                            # a zero real part of a complex number may be left out
            continue
        if sum(alike(v, w) for w in have) < sum(alike(v, w) for w in need):
            return v
    return None


def differs(a, b):
    """Whether two canonical objects differ by more than a display can hide."""
    if a[0] != b[0]:
        return a[0] == "c" or b[0] == "c"
    if a[0] == "o":
        return any(differs(x[1], y[1]) for x, y in zip(a[2], b[2]))
    if a[0] == "c":
        return a[1] != b[1]
    x, y = scalars(a), scalars(b)
    big = max([1.0] + [abs(v) for v in x + y if v == v and abs(v) != float("inf")])
    for v, w in zip(x, y):
        if v == v and w == w and abs(v) != float("inf") and abs(w) != float("inf") and abs(v - w) > 2e-7 * big:
            return True
    return False


def lengthy(*vectors):
    return all(1e-3 < max(abs(v)) < 1e9 for v in vectors)


class C11(Check):
    prop = "C11"
    counts = {"quick": 8000, "thorough": 60000}
    rule = ("One run = an object of the k-th class with others around it, in a history of about 12 steps: attributes "
            "assigned or written in place, other calls (some interrupted), extreme and degenerate states, and "
            "displays, on a healthy device, on the standard text layer over a simulated raw file (short writes, "
            "buffer sizes, encodings, ENOSPC/EPIPE/EIO... at a byte), on a device that fails by itself, or "
            "interrupted at a step; or 2-3 threads that display shared objects under seeded schedules, each on its "
            "own device. The text must equal that of a fresh object with the current values, contain every "
            "defining number, and change when one parameter changes. Non-trivial: a judged display.")
    measure = "distinct (class, statement or byte at which the device or the display failed) and preemptions"
    real = ["io.TextIOWrapper and io.BufferedWriter of the interpreter over the simulated raw file"]
    stubs = ["the raw file or text device behind standard output", "asynchronous exception delivery",
             "thread scheduler"]
    assumptions = ["numbers are displayed with at least 8 digits",
                   "a state is one that the constructors or attribute assignment accept"]

    def gen(self, rng, k):
        cls = CLASSES[k % len(CLASSES)]
        g = Gen(rng, rng.randint(2, 4))
        i = g.add(cls)
        if rng.random() < .2:
            return self.gen_threads(rng, g, i)
        ids = [i, i, i] + [rng.randrange(len(g.pool))]
        steps = []
        n = rng.randint(8, 15)
        length = 200
        while len(steps) < n:
            j = rng.choice(ids)
            spec = g.pool[j]
            r = rng.random()
            if r < .28:
                opts = settable(spec)
                if opts:
                    attr, place = rng.choice(opts)
                    v = gen_value(rng, g, spec, place, attr, g.pool)
                    if v[0] in ("n", "p") and rng.random() < .15:
                        x = rng.choice(EXTREME)
                        v = ["n", x] if v[0] == "n" else ["p", [float(x), v[1][1]], "a"]
                    steps.append({"do": "set", "obj": j, "attr": attr, "place": place, "val": v,
                                  "poke": rng.random() < .5})
            elif r < .36:
                s = (extreme_spec if rng.random() < .5 else degenerate_spec)(rng, spec)
                if s is not None:
                    steps.append({"do": "replace", "obj": j, "spec": s})
            elif r < .48:
                op = related(g, show_op(spec["cls"], j), rng)
                s = {"do": "call", "op": op}
                if rng.random() < .4:
                    s["fault"], s["kind"] = rng.random(), rng.choice(KINDS)
                steps.append(s)
            elif r < .56:
                steps.append({"do": "twin", "obj": j, "seed": rng.randrange(1 << 30)})
                continue
            elif r < .66:
                steps.append({"do": "str", "obj": j})
                continue
            elif r < .76:
                steps.append({"do": "show", "obj": j, "fault": rng.random(), "kind": rng.choice(KINDS)})
            else:
                steps.append({"do": "show", "obj": j, "dev": device.gen(rng, length)})
            if rng.random() < .8 and steps:
                steps.append({"do": rng.choice(["show", "show", "str"]), "obj": j})
        steps.append({"do": "show", "obj": i})
        steps.append({"do": "str", "obj": i})
        return {"mode": "history", "scene": g.scene(), "steps": steps, "seed": rng.randrange(1 << 30)}

    def gen_threads(self, rng, g, i):
        cls = g.pool[i]["cls"]
        same = [j for j, s in enumerate(g.pool) if s["cls"] == cls]
        g.pool.append(near_spec(rng, g.pool[i]))
        same.append(len(g.pool) - 1)
        threads = []
        for t in range(rng.choice([2, 2, 3])):
            j = rng.choice(same + [i]) if rng.random() < .8 else rng.randrange(len(g.pool))
            c = g.pool[j]["cls"]
            x = {"obj": j, "op": str_op(c, j) if rng.random() < .3 else show_op(c, j)}
            if rng.random() < .35 and x["op"]["fn"].endswith("show"):
                x["dev"] = device.gen(rng, 200)
            threads.append(x)
        return {"mode": "threads", "scene": g.scene(), "threads": threads, "seed": rng.randrange(1 << 30),
                "plans": [{"seed": rng.randrange(1 << 30)} for _ in range(6)]}

    def run(self, scn, st):
        scene = copy.deepcopy(scn["scene"])
        detach(scene["pool"])
        st.scenario(scn["scene"], scn["seed"])
        h = History(scene, st, scn["seed"])
        if scn["mode"] == "threads":
            return self.threads(h, scn, st)
        prev = "start"
        for n, s in enumerate(scn["steps"]):
            try:
                if self.step(h, scn, n, s, prev, st):
                    prev = s["do"]
            except catalog.Unbuildable as e:
                E.cur = None
                core.rejected(e)
        return tuple(h.log)

    def step(self, h, scn, n, s, prev, st):
        what = {"step": n, "after": prev}
        do = s["do"]
        if do == "set":
            if not h.assign(s["obj"], s["attr"], s["place"], s["val"], s["poke"]):
                return False
            st.add("fault:update " + ("in place" if s["poke"] else "by assignment"))
        elif do == "replace":
            if not h.replace(s["obj"], s["spec"]):
                return False
            st.add("fault:extreme or degenerate state")
        elif do == "call":
            h.call(s["op"], what, s.get("fault"), s.get("kind"))
        else:
            j = s["obj"]
            cls = h.pool[j]["cls"]
            op = str_op(cls, j) if do == "str" else show_op(cls, j)
            what["call"], what["fn"] = core.op_text(op), op["fn"]
            h.env[j]
            h.before["objs"].setdefault(j, canon(h.env[j]))
            want = self.faithful(h, op, j, what)
            if do == "twin":
                self.twin(h, s, j, cls, what, st)
            elif s.get("fault") is not None:
                self.interrupted(h, s, op, want, what, st)
            elif s.get("dev") is not None and cls != "Arc":
                self.on_device(h, s["dev"], op, want, what, st)
            else:
                d = h.call(op, what)
                h.log.append(d.text or d.out)
                st.add("displays")
            st.case(n, do)
        return True

    # -- what must be shown
    def faithful(self, h, op, j, what):
        want = h.expected(op)
        if want.out[0] != "return":
            raise Violation("an object cannot be displayed", object=h.pool[j], outcome=core.describe(want), **what)
        if getattr(want, "path", None) == "judged":
            return want
        text = want.text
        skip = ("ratio",) if op["fn"] == "Shear.show" else ()
        if op["fn"].endswith("__str__"):
            text = want.out[1][1] if want.out[1][0] == "s" else ""
        elif not want.out[1] == ("c", None):
            raise Violation("a display gives a result", outcome=core.describe(want), **what)
        v = missing(canon(h.env[j]), text, skip)
        if v is not None:
            raise Violation("a display does not show a parameter", value=repr(v), text=text[:600],
                            object=h.pool[j], **what)
        want.path = "judged"
        return want

    def twin(self, h, s, j, cls, what, st):
        """The display changes when one parameter does."""
        rng = random.Random(s["seed"])
        pool = copy.deepcopy(h.pool)
        spec = pool[j]
        deep = [a[1] for a in spec["args"] if a[0] == "o"]
        t = rng.choice(deep) if deep and rng.random() < .8 else j
        if rng.random() < .6:
            other = near_spec(rng, pool[t])
        else:
            f = Gen(rng, 2).spec(pool[t]["cls"])
            other = copy.deepcopy(pool[t])
            slots = [(other["args"], f["args"], k) for k in range(min(len(f["args"]), len(other["args"])))
                     if other["args"][k][0] != "o" and f["args"][k][0] not in ("o", "A")] + \
                    [(other["kw"], f["kw"], k) for k in sorted(f["kw"]) if k in other["kw"]]
            if slots:
                a, b, k = rng.choice(slots)
                a[k] = b[k]
        pool[t] = other
        ref = h.reference(j, spec) if t == j else None
        scene = {"pool": pool, "arrays": h.scene["arrays"]}
        try:
            new = catalog.Env(engine_world(), scene, [])[j]
        except Exception:
            return
        if not differs(canon(new), canon(h.env[j])):
            return
        st.add("fault:one parameter changed")
        for op in {show_op(cls, j)["fn"]: show_op(cls, j), cls + ".__str__": str_op(cls, j)}.values():
            if op["fn"] == "Shear.show" and not lengthy(h.env[j].vector, new.vector):
                continue                      # the ratio shows as the length of the second vector
            a, b = h.expected(op), core.alone(scene, op, h.seed)
            if b.out[0] != "return":
                raise Violation("an object cannot be displayed", object=pool[j], outcome=core.describe(b), **what)
            if a.text == b.text and a.out == b.out:
                raise Violation("a display does not show a parameter", text=a.text[:400] or core.show(a.out),
                                object=core.show(canon(h.env[j])), shown_alike=core.show(canon(new)), **what)

    # -- faults
    def unchanged(self, h, what):
        ch = core.changed(h.before, h.env)
        if ch:
            raise Violation("a display changed an object", **what, **ch)

    def interrupted(self, h, s, op, want, what, st):
        if not want.steps:
            return
        info = {}
        d = core.call(h.env.bind(op), h.seed, core.fault_hook(1 + int(s["fault"] * want.steps), s["kind"], info),
                      limit=8 * want.steps + 20000)
        if not info:
            return
        st.add("fault:" + s["kind"])
        st.inter.add(hash((op["fn"], info["site"])))
        self.unchanged(h, what)
        if d.value is not info["exc"]:
            raise Violation("an interrupted display does not report it", got=core.describe(d), **what)
        if not want.text.startswith(d.text):
            raise Violation("an interrupted display has written something else", got=d.text[:300],
                            expected=want.text[:300], **what)

    def judge_device(self, dev, o, d, full, what):
        """o: the device; d: the finished display; full: the whole text."""
        enc = None
        try:
            whole = o.whole(full)
        except UnicodeEncodeError as e:
            enc, whole = e, o.whole(full[:e.start])
        got = o.received()
        info = dict(device=dev, received=repr(got[-60:]), length="%d of %d" % (len(got), len(whole)), **what)
        if got != whole[:len(got)]:
            raise Violation("the device received something else", whole=repr(whole[:400]), everything=repr(got[:400]),
                            **info)
        if d.out[0] == "abort":
            raise Violation("a display does not end", why=d.out[1], **info)
        if o.raised:
            if d.out[0] != "raise":
                raise Violation("the device's error is not reported", outcome=core.describe(d), **info)
            e = o.raised[0]
            if d.value is not e and (type(d.value) is not type(e) or d.value.args != e.args):
                raise Violation("another error than the device's own is reported", device_error=repr(e),
                                got=repr(d.value), **info)
            return
        if enc is not None:
            if d.out[0] != "raise" or not isinstance(d.value, UnicodeEncodeError):
                raise Violation("the device's error is not reported", outcome=core.describe(d), **info)
            return
        if d.out[0] == "raise":
            raise Violation("a display on a healthy device fails", got=core.describe(d), **info)
        if len(got) != len(whole):
            raise Violation("the device did not receive everything", **info)

    def on_device(self, h, dev, op, want, what, st):
        o = device.make(dev)
        fn = h.env.bind(op)

        def both():
            r = fn()
            o.finish()
            return r
        d = core.call(both, h.seed, limit=8 * want.steps + 20000, out=o)
        self.count(o, dev, op, st)
        try:
            self.unchanged(h, what)
            self.judge_device(dev, o, d, want.text, what)
        finally:
            o.dispose()
        h.log.append((o.received(), d.out[0]))

    def count(self, o, dev, op, st):
        st.add("displays")
        if o.raised:
            st.add("fault:device " + type(o.raised[0]).__name__)
            st.inter.add(hash((op["fn"], len(o.received()))))
        short = getattr(getattr(o, "raw", None), "short", 0)
        if short:
            st.add("fault:short write", short)

    # -- threads
    def threads(self, h, scn, st):
        what = {"mode": "threads"}
        wants = []
        for x in scn["threads"]:
            h.env[x["obj"]]
            wants.append(self.faithful(h, x["op"], x["obj"], dict(what, call=core.op_text(x["op"]), fn=x["op"]["fn"])))
        h.refresh()
        n = len(wants)
        log = []
        for p in scn["plans"]:
            pol = PlanPolicy(n, p["plan"]) if "plan" in p else \
                RandomPolicy(random.Random(p["seed"]), n, [w.steps for w in wants])
            devs = [device.make(x["dev"]) if x.get("dev") else None for x in scn["threads"]]
            done = [core.Done() for _ in wants]

            def body_of(i):
                fn, o, d = h.env.bind(scn["threads"][i]["op"]), devs[i], done[i]

                def both():
                    r = fn()
                    if o is not None:
                        o.finish()
                    return r

                def body(t):
                    t.out, t.text = o, []
                    t.limit = 8 * wants[i].steps + 20000
                    out, d.value = outcome_of(both)
                    d.out, d.text, d.steps = core.norm(out), core.tidy("".join(t.text)), t.step
                    if d.out[0] == "abort":
                        raise engine.SimAbort(d.out[1])
                return body
            sch = Scheduler([body_of(i) for i in range(n)], pol)
            inner = pol.at

            def at(t, site):
                to = inner(t, site)
                if to is not None and to != t.tid:
                    st.add("fault:preemption")
                    st.inter.add(hash((scn["threads"][t.tid]["op"]["fn"], site, "by", to)))
                return to
            pol.at = at
            aborted = sch.run()
            E.total_steps += sum(t.step for t in sch.tasks)
            frozen = dict(scn, plans=[{"plan": [list(x) for x in pol.log]}])
            st.case(tuple(pol.log))
            if aborted:
                raise Violation("overlapping displays do not end", why=aborted, scenario=frozen, **what)
            try:
                self.unchanged(h, dict(what, scenario=frozen))
                for i, x in enumerate(scn["threads"]):
                    w = dict(what, scenario=frozen, call=core.op_text(x["op"]), fn=x["op"]["fn"],
                             schedule=list(pol.log)[:12])
                    if devs[i] is not None:
                        self.count(devs[i], x["dev"], x["op"], st)
                        self.judge_device(x["dev"], devs[i], done[i], wants[i].text, w)
                    else:
                        st.add("displays")
                        if not core.agree(done[i], wants[i]):
                            raise Violation("overlapping displays are mixed up", expected=core.describe(wants[i]),
                                            got=core.describe(done[i]), **w)
            finally:
                for o in devs:
                    if o is not None:
                        o.dispose()
            log.append(tuple(pol.log))
        for x in scn["threads"]:
            h.call(x["op"], dict(what, after="overlapping displays"))
        return tuple(log)

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def freeze(self, scn):
        return scn

    def shrink(self, scn):
        key = "steps" if scn["mode"] == "history" else "plans"
        n = len(scn[key])
        for size in (n // 2, n // 4, 1):
            if size < 1:
                continue
            for a in range(0, n, size):
                if n - size < 1:
                    continue
                c = copy.deepcopy(scn)
                del c[key][a:a + size]
                yield c
        if key == "plans" and n == 1 and "plan" in scn["plans"][0]:
            for i in range(len(scn["plans"][0]["plan"])):
                c = copy.deepcopy(scn)
                del c["plans"][0]["plan"][i]
                yield c

    def describe(self, scn):
        out = []
        for s in scn.get("steps", [])[:15]:
            if "op" in s:
                out.append(s["do"] + " " + core.op_text(s["op"]))
            elif s["do"] == "set":
                out.append("%s obj%d.%s" % ("poke" if s["poke"] else "set", s["obj"], s["attr"]))
            else:
                out.append({k: v for k, v in s.items() if k != "spec"})
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "steps": out,
                "threads": [core.op_text(x["op"]) for x in scn.get("threads", [])]}


def engine_world():
    from .. import instrument
    return instrument.World()


CHECK = C11()
