"""C14: a process that uses the library can fork at any moment; both processes go on as if alone."""
import atexit
import copy
import gc
import os
import pickle
import select
import signal

import numpy as np

from .. import catalog, core, engine, instrument
from ..base import Check
from ..core import Violation
from ..engine import E, PlanPolicy, Scheduler, outcome_of
from ..gen import focus, related
from ..history import History, detach, gen_value, near_op, settable

PATIENCE = 150.0             # seconds of real time after which a silent child counts as stuck


class C14(Check):
    prop = "C14"
    counts = {"quick": 2000, "thorough": 40000}
    rule = ("One run = objects around one operation (operations visited in turn), a short history, then six real forks "
            "of the simulated process: by another thread while one or two calls are in the middle (any step), by a "
            "signal handler inside a call, or at rest, partly in a process that has done nothing before. In the child only the forking thread is left. Child and parent "
            "are run one after the other, in either order, each with its own updates, calls on old and on new objects, "
            "and (sometimes) a collection of garbage; in the parent the calls in progress go on, and in the child too "
            "if a handler forked. Every outcome must be that of the call alone in an unforked process, the random "
            "stream must be the inherited one, and no update may show on the other side. Non-trivial: a call compared "
            "in the child.")
    measure = "distinct (operation in progress, its statement at the fork, who forked) triples"
    real = ["fork and pipes of the operating system"]
    stubs = ["thread scheduler and locks (real threads, one at a time)", "standard output",
             "numpy random stream (seeded per call)"]
    assumptions = ["no call into numpy is in the middle when another thread forks (simulation points are python code)"]

    # -- scenario
    def gen(self, rng, k):
        g, op = focus(rng, k)
        ops = [op, related(g, op, rng), related(g, op, rng), g.op()]
        used = sorted({i for o in ops for i in catalog.refs(o)})

        def update():
            if not used:
                return None
            i = rng.choice(used)
            opts = settable(g.pool[i])
            if not opts:
                return None
            attr, place = rng.choice(opts)
            return {"obj": i, "attr": attr, "place": place, "poke": rng.random() < .5,
                    "val": gen_value(rng, g, g.pool[i], place, attr, g.pool)}

        def side(on=None):
            if on is not None:
                return {"updates": [], "calls": on + [rng.randrange(4)], "new": None, "near": None, "gc": False}
            return {"updates": [u for u in [update() for _ in range(rng.choice([0, 1, 1, 2]))] if u],
                    "calls": [0] + [rng.randrange(4) for _ in range(rng.choice([1, 2, 3]))],
                    "new": rng.randrange(4), "near": near_op(rng, op), "gc": rng.random() < .1}
        before = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            u = update()
            if u and rng.random() < .4:
                before.append({"update": u})
            else:
                before.append({"call": rng.choice(ops) if rng.random() < .7 else near_op(rng, op)})
        rounds = []
        for n in range(6):
            mode = rng.choice(["thread", "thread", "thread", "two threads", "handler", "rest"])
            on = [0 if rng.random() < .7 else rng.randrange(4)]
            if mode == "two threads":
                on.append(0 if rng.random() < .3 else rng.randrange(4))
            rounds.append({"mode": mode, "on": on, "f": [rng.random() for _ in on],
                           "first": rng.choice(["child", "parent"]), "cold": n > 0 and rng.random() < .6,
                           "child": side(on if n % 3 else None), "parent": side(on if n % 3 else None)})
        scene = g.scene()
        return {"scene": scene, "ops": ops, "before": before, "rounds": rounds, "seed": rng.randrange(1 << 30)}

    # -- one run
    def run(self, scn, st):
        scene = copy.deepcopy(scn["scene"])
        detach(scene["pool"])
        st.scenario(scn)
        h = History(scene, st, scn["seed"], scn["ops"])
        log = []
        try:
            for n, s in enumerate(scn["before"]):
                if "call" in s:
                    h.call(s["call"], {"before the fork": n})
                else:
                    u = s["update"]
                    h.assign(u["obj"], u["attr"], u["place"], u["val"], u["poke"])
            for n, r in enumerate(scn["rounds"]):
                log.append(self.round(h, scn, r, st, {"fork": n, "forked by": r["mode"], "first": r["first"]}))
        except catalog.Unbuildable as e:
            E.cur = None
            core.rejected(e)
        return tuple(log)

    def round(self, h, scn, r, st, what):
        ops = scn["ops"]
        bound, want = [], []
        if r["cold"]:                            # a process that has not done anything yet
            h.env = catalog.Env(instrument.World(), h.scene, ops)
            h.refresh()
        if r["mode"] != "rest":
            for i in r["on"]:
                bound.append(h.env.bind(ops[i]))
                want.append(core.alone(h.scene, ops[i], h.seed, True))
            if any(d.out[0] == "abort" for d in want):
                return None
            what = dict(what, in_progress=[core.op_text(ops[i]) for i in r["on"]], fn=ops[r["on"][0]]["fn"])
        h.env.world.activate()
        h.refresh()
        f = Fork(self, h, scn, r, st, what)
        at = [core.pick_step(d, x) if d.steps else 0 for d, x in zip(want, r["f"])]
        limits = [8 * d.steps + 20000 for d in want]
        done = []
        if r["mode"] == "rest":
            f.fork()
        elif r["mode"] == "handler":
            def hook(t, site):
                if t.step == at[0] and f.pid is None:
                    t.hook = None
                    f.site = site
                    f.fork()
            try:
                done = [core.call(bound[0], h.seed, hook, limit=limits[0])]
                if f.pid is None:                # the call ended before (something is remembered): at rest then
                    f.fork()
            finally:
                if f.pid == 0 and not done:
                    os._exit(7)
            if f.pid == 0:
                f.child(done[0], want[0])
        else:
            done = self.beside(f, h, bound, at, limits)
        st.add("fault:fork " + {"rest": "at rest", "handler": "in a handler", "thread": "beside a call",
                                "two threads": "beside two calls"}[r["mode"]])
        if f.site is not None:
            st.pairs.add(hash((what["fn"], f.site)))
        st.inter.add(hash((what.get("fn"), f.site, r["mode"])))
        f.settle()
        if f.pid == 0:
            os._exit(8)
        for d, w, i in zip(done, want, r["on"]):
            if not core.agree(d, w):
                raise Violation("a call in progress is disturbed by a fork", expected=core.describe(w),
                                got=core.describe(d), call=core.op_text(ops[i]), **what)
        f.parent()
        return f.log

    def beside(self, f, h, bound, at, limits):
        n = len(bound)
        done = [core.Done() for _ in bound]

        def victim(i):
            def body(t):
                t.rng, t.rngseed, t.text, t.limit = None, h.seed, [], limits[i]
                o, done[i].value = outcome_of(bound[i])
                done[i].out, done[i].text, done[i].steps = core.norm(o), core.tidy("".join(t.text)), t.step
                if o[0] == "abort":
                    raise engine.SimAbort(o[1])
            return body

        def forker(t):
            sites = [f.last.get(i) for i in range(n)]
            f.site = sites[0]
            f.fork()
            if f.pid == 0:
                f.child()
        pol = WatchPlan(n + 1, [(i, at[i], i + 1) for i in range(n)])
        f.last = pol.last
        sch = Scheduler([victim(i) for i in range(n)] + [forker], pol)
        aborted = sch.run()
        if aborted:
            f.kill()
            raise Violation("a call in progress, or the fork, does not end", why=aborted, **f.what)
        return done

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("fn", ""))

    def shrink(self, scn):
        for i in range(len(scn["rounds"])):
            if len(scn["rounds"]) > 1:
                c = copy.deepcopy(scn)
                del c["rounds"][i]
                yield c
        for i in range(len(scn["before"])):
            c = copy.deepcopy(scn)
            del c["before"][i]
            yield c
        for i, r in enumerate(scn["rounds"]):
            for side in ("child", "parent"):
                for key, simple in (("updates", []), ("calls", r[side]["calls"][:1]), ("gc", False)):
                    if r[side][key] != simple:
                        c = copy.deepcopy(scn)
                        c["rounds"][i][side][key] = simple
                        yield c
            if r["cold"]:
                c = copy.deepcopy(scn)
                c["rounds"][i]["cold"] = False
                yield c
            if len(r["on"]) > 1:
                c = copy.deepcopy(scn)
                c["rounds"][i].update(mode="thread", on=r["on"][:1], f=r["f"][:1])
                yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "forks": [{k: r[k] for k in ("mode", "on", "f", "first")} for r in scn["rounds"]]}


class WatchPlan(PlanPolicy):
    """A fixed schedule that notes where every thread is."""

    def __init__(self, n, log):
        PlanPolicy.__init__(self, n, log)
        self.last = {}

    def at(self, t, site):
        self.last[t.tid] = site
        return PlanPolicy.at(self, t, site)


class Fork:
    """One fork of the simulated process and both sides of it."""

    def __init__(self, check, h, scn, r, st, what):
        self.check, self.h, self.scn, self.r, self.st, self.what = check, h, scn, r, st, what
        self.pid, self.site, self.log, self.result = None, None, [], None
        self.stream = stream()

    def fork(self):
        for op in self.scn["ops"]:               # judged by: the call alone, in a process that never forked
            cur, E.cur = E.cur, None
            sched, E.sched = E.sched, None
            try:
                self.h.expected(op)
                self.h.env.world.activate()
            finally:
                E.cur, E.sched = cur, sched
        self.result_r, self.result_w = os.pipe()
        self.go_r, self.go_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(self.result_r)
            os.close(self.go_w)
            signal.alarm(0)
            E.panic = lambda why: self.send(("violation", "a call does not end after a fork",
                                             dict(self.what, why=why, side="child")))
        else:
            os.close(self.result_w)
            os.close(self.go_r)
            if self.r["first"] == "child":
                self.go()
                if self.r["mode"] != "handler":
                    self.receive()

    # -- in the child
    def child(self, done=None, want=None):
        try:
            E.cur, E.sched, E.aborting = None, None, None
            os.read(self.go_r, 1)
            try:
                if done is not None and not core.agree(done, want):
                    raise Violation("a call in progress is disturbed by a fork", expected=core.describe(want),
                                    got=core.describe(done), **self.what)
                c0, s0 = dict(self.st.c), E.total_steps
                self.side("child")
                if self.r["child"]["gc"]:
                    atexit._run_exitfuncs()          # the child ends in the ordinary way, the parent goes on
                    self.st.add("fault:ordinary end of the child")
                got = ("ok", {k: n - c0.get(k, 0) for k, n in self.st.c.items() if n != c0.get(k, 0)},
                       E.total_steps - s0, self.log)
            except Violation as v:
                got = ("violation", v.kind, v.detail)
            self.send(got)
        except BaseException:
            import traceback
            self.send(("harness", traceback.format_exc()))
        finally:
            os._exit(9)

    def send(self, got):
        try:
            b = pickle.dumps(got)
        except Exception:
            b = pickle.dumps(got[:2] + ({k: repr(x) for k, x in got[2].items()},))
        while b:
            b = b[os.write(self.result_w, b):]
        os._exit(0)

    # -- in the parent
    def go(self):
        if self.go_w is not None:
            os.write(self.go_w, b"g")
            os.close(self.go_w)
            self.go_w = None

    def receive(self):
        if self.result is not None:
            return
        parts = []
        while True:
            ready, _, _ = select.select([self.result_r], [], [], PATIENCE)
            if not ready:
                self.result = ("violation", "the child of a fork is stuck", dict(self.what))
                break
            b = os.read(self.result_r, 1 << 16)
            if not b:
                break
            parts.append(b)
        os.close(self.result_r)
        if self.result is not None:
            os.kill(self.pid, signal.SIGKILL)
        _, status = os.waitpid(self.pid, 0)
        if self.result is None:
            self.result = pickle.loads(b"".join(parts)) if parts else \
                ("violation", "the child of a fork dies", dict(self.what, status=status))

    def kill(self):
        if self.pid and self.result is None:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            os.close(self.result_r)
            if self.go_w is not None:
                os.close(self.go_w)
            self.pid = None

    def settle(self):
        """Runs the child now if it goes first."""
        if self.r["mode"] == "rest" and self.pid == 0:
            self.child()
        if self.r["first"] == "child":
            self.receive()
            self.judge()

    def parent(self):
        try:
            self.side("parent")
        except Violation:
            self.kill()
            raise
        if self.r["first"] == "parent":
            self.go()
            self.receive()
            self.judge()

    def judge(self):
        r, self.judged = self.result, True
        if r[0] == "harness":
            raise engine.HarnessError(r[1])
        if r[0] == "violation":
            raise Violation(r[1], **r[2])
        for k, n in r[1].items():
            self.st.add(k, n)
        self.st.add("simulated steps in children", r[2])
        E.total_steps += r[2]
        self.log.append(r[3])
        self.st.case(self.what["fork"], self.r["mode"])

    # -- what either side does
    def side(self, name):
        h, s, what = self.h, self.r[name], dict(self.what, side=name)
        if stream() != self.stream:
            raise Violation("a fork changes the random stream", **what)
        log = []
        h.env.world.activate()
        for j in s["calls"]:
            d = h.call(self.scn["ops"][j], what)
            log.append(d and d.out)
        if s["near"]:
            h.call(s["near"], what)
        for u in s["updates"]:
            if h.assign(u["obj"], u["attr"], u["place"], u["val"], u["poke"]):
                self.st.add("fault:update in the " + name)
        if s["gc"]:
            gc.collect()
            gc.collect()
            self.st.add("fault:collection of garbage in the " + name)
        h.env.world.activate()
        for j in s["calls"][:2] if s["updates"] or s["gc"] else ():
            d = h.call(self.scn["ops"][j], what)
            log.append(d and d.out)
        # a new object of the same process
        op = None if s["new"] is None else self.scn["ops"][s["new"]]
        want = op and h.expected(op)
        if op and want.out[0] != "abort":
            h.env.world.activate()
            env = catalog.Env(h.env.world, h.scene, [])
            d = core.call(env.bind(op), h.seed, limit=8 * want.steps + 20000)
            self.st.add("evaluations")
            if not core.agree(d, want):
                raise Violation("a call does not end after a fork" if d.out[0] == "abort" else
                                "an answer is wrong after a fork", call=core.op_text(op), on="new objects",
                                expected=core.describe(want), got=core.describe(d), **what)
        if stream() != self.stream:
            raise Violation("the random stream is changed after a fork", **what)
        self.log.append(tuple(log))


def stream():
    a = engine._harness_rng.get_state()
    return (a[0], a[1].tobytes(), a[2:])


CHECK = C14()
