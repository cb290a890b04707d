"""C15: answers do not depend on the surroundings of the call."""
import copy
import sys

from .. import ambient, catalog, core, engine, instrument
from ..base import Check
from ..core import Violation
from ..engine import E, PlanPolicy, Scheduler, outcome_of
from ..gen import focus, related

DISPLAYS = (".show", ".__str__", ".__repr__")


def deep(n, fn):
    return fn() if n <= 0 else deep(n - 1, fn)


def display(op):
    return op["fn"].endswith(DISPLAYS)


class C15(Check):
    prop = "C15"
    counts = {"quick": 7200, "thorough": 90000}
    rule = ("One run = a scene, four calls (operations visited in turn) and 12 evaluations of them in one world or in "
            "worlds imported on the spot, each under other surroundings, made of up to six of: numpy error modes that do "
            "not raise, numpy print options, warning filters, decimal context, environment, working directory, a "
            "simulated clock (frozen, jumping, running backwards), python's random stream, recursion limit, garbage "
            "collector, arguments of the process, a terminal as output, numpy buffer size, python -O / -OO and other "
            "flags, another thread, a tracer, a deep stack, any environment variable the package may ask for, the "
            "identity of process, user and machine, logging. In half of them the surroundings change once more at a random step of the call. Every "
            "outcome must be that of the call alone in ordinary surroundings. Non-trivial: an evaluation under changed "
            "surroundings that was compared.")
    measure = "distinct (operation, kind of surroundings, changed before or at which statement of the call) triples"
    stubs = ["the clock (time module) as the package sees it", "standard output", "numpy random stream (seeded per call)",
             "thread scheduler"]
    real = ["settings of numpy, decimal, warnings and the interpreter"]
    assumptions = ["modes that turn warnings or floating-point conditions into errors belong to C03",
                   "what a display shows of an array is up to numpy's print options"]

    def begin(self):
        ambient.install()
        self.settings = ambient.Settings()
        import atexit
        atexit.register(self.settings.close)

    # -- scenario
    def gen(self, rng, k):
        g, op = focus(rng, k)
        ops = [op, related(g, op, rng), related(g, op, rng), g.op()]
        evals = []
        for _ in range(12):
            i = 0 if rng.random() < .6 else rng.randrange(4)
            cfg = ambient.gen(rng)
            mid = None
            if rng.random() < .5:
                mid = {"f": rng.random(),
                       "cfg": ambient.gen(rng, [a for a in ambient.AXES if a not in ambient.STATIC + ambient.OUTSIDE])}
            early = {"any variable", "identity", "flags", "clock"} & set(cfg)         # may be read at import
            evals.append({"op": i, "cfg": cfg, "mid": mid, "new": rng.random() < (.4 if early else .12)})
        scene, ops = core.prune(g.scene(), ops)
        return {"scene": scene, "ops": ops, "evals": evals, "seed": rng.randrange(1 << 30)}

    def run(self, scn, st):
        self.settings.save()
        try:
            return self.body(scn, st)
        finally:
            self.settings.restore()

    def body(self, scn, st):
        scene, ops, seed = scn["scene"], scn["ops"], scn["seed"]
        st.scenario(scene, ops)
        base = [core.alone(scene, op, seed, True) for op in ops]
        env = catalog.Env(instrument.World(), scene, ops)
        log = []
        for n, e in enumerate(scn["evals"]):
            op, b = ops[e["op"]], base[e["op"]]
            cfg = dict(e["cfg"])
            mid = e["mid"]
            if display(op):
                cfg.pop("print", None)
                if mid:
                    mid = dict(mid, cfg={a: v for a, v in mid["cfg"].items() if a != "print"})
            if mid and b.steps:
                if "at" not in mid:
                    mid["at"] = e["mid"]["at"] = core.pick_step(b, mid["f"])
            else:
                mid = None
            printing = "print" in cfg or (mid and "print" in mid["cfg"])
            self.settings.apply(cfg)
            env2 = env
            if e["new"] or "optimize" in cfg:
                try:
                    world = instrument.World(cfg.get("optimize"))
                except Exception as x:
                    raise Violation("the library cannot be imported in these surroundings", surroundings=cfg,
                                    error=repr(x), fn=op["fn"])
                try:
                    env2 = catalog.Env(world, scene, ops)
                    fn = env2.bind(op)
                except catalog.Unbuildable:
                    raise Violation("an object cannot be built in these surroundings", surroundings=cfg,
                                    call=core.op_text(op), fn=op["fn"])
            else:
                fn = env2.bind(op)
            site = [None]

            def hook(t, s, mid=mid, site=site):
                if t.step == mid["at"] and site[0] is None:
                    site[0] = s
                    c, E.cur = E.cur, None
                    self.settings.apply(mid["cfg"])
                    E.cur = c
            d = self.call(fn, seed, hook if mid else None, cfg)
            self.settings.restore()
            env.world.activate()
            what = {"call": core.op_text(op), "fn": op["fn"], "surroundings": cfg,
                    "changed at": None if not mid else (mid["at"], mid["cfg"])}
            for a in cfg:
                st.add("fault:" + a)
                st.inter.add(hash((op["fn"], a, "before")))
            if mid and site[0] is not None:
                for a in mid["cfg"]:
                    st.add("fault:" + a + ", in the middle")
                    st.inter.add(hash((op["fn"], a, site[0])))
                st.pairs.add(hash((op["fn"], site[0])))
            st.add("evaluations")
            st.case(e["op"], n)
            log.append(d.out)
            same = core.same(d.out, b.out) and (printing or d.text == b.text)
            if not same and printing and d.out[0] == "raise" and d.out[:2] == b.out[:2]:
                same = True                      # the text of the error may show an array
            if not same:
                raise Violation("an answer depends on the surroundings", expected=core.describe(b),
                                got=core.describe(d), **what)
        return tuple(log)


    def call(self, fn, seed, hook, cfg):
        if "depth" in cfg:
            n = min(cfg["depth"], 20) if "recursion limit" in cfg else cfg["depth"]
            inner = fn
            fn = lambda: deep(n, inner)              # noqa: E731
        if "trace" in cfg:
            def go():
                sys.settrace(lambda *a: None)
                try:
                    return fn()
                finally:
                    sys.settrace(None)
            return core.call(go, seed, hook)
        if "thread" in cfg:
            d = core.Done()
            res = []

            def body(t):
                t.step = 0
                res.append(outcome_of(fn))
            sch = Scheduler([body], PlanPolicy(1, []), rngseeds=[seed])
            t = sch.tasks[0]
            if hook:
                t.hook = hook
            why = sch.run()
            E.total_steps += t.step
            if why or not res:
                d.out, d.value = ("abort", why or "no result"), None
            else:
                d.out, d.value = core.norm(res[0][0]), res[0][1]
            d.text, d.steps, d.path, d.draws = core.tidy("".join(t.text)), t.step, None, t.draws
            return d
        return core.call(fn, seed, hook)

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def shrink(self, scn):
        n = len(scn["evals"])
        if n > 1:
            for i in range(n):
                c = copy.deepcopy(scn)
                c["evals"] = [c["evals"][i]]
                yield c
            for i in range(n):
                c = copy.deepcopy(scn)
                del c["evals"][i]
                yield c
        for i, e in enumerate(scn["evals"]):
            if e["mid"]:
                c = copy.deepcopy(scn)
                c["evals"][i]["mid"] = None
                yield c
                for a in e["mid"]["cfg"]:
                    if len(e["mid"]["cfg"]) > 1:
                        c = copy.deepcopy(scn)
                        del c["evals"][i]["mid"]["cfg"][a]
                        yield c
            for a in e["cfg"]:
                c = copy.deepcopy(scn)
                del c["evals"][i]["cfg"][a]
                yield c
        used = {e["op"] for e in scn["evals"]}
        for j in range(len(scn["ops"])):
            if j not in used and len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                for e in c["evals"]:
                    e["op"] -= e["op"] > j
                c["scene"], c["ops"] = core.prune(c["scene"], c["ops"])
                yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "surroundings": [[e["op"], e["cfg"], e["mid"]] for e in scn["evals"][:4]]}


CHECK = C15()
