"""C06: sampled points lie on the requested set for every possible random stream."""
import copy
import random

import numpy as np

from .. import catalog, core, engine, figures, instrument
from ..base import Check
from ..core import Violation
from ..engine import E, FAULTS, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..history import settable
from ..randsrc import MODES, Source

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
SIZES = [1, 1, 2, 2, 3, 4, 5, 7, 10, 33]


class C06(Check):
    prop = "C06"
    counts = {"quick": 2400, "thorough": 60000}
    rule = ("One run = three figures (three kinds, sizes 1e-4 to 1e5, far away, all orientations), some updated on "
            "the way, sampled 8 times in a row (some calls interrupted) and then by 2-3 threads that share the "
            "random source, whose values are ordinary, stuck, alternating, all minimal or all maximal, or the "
            "rarest ones numpy can deliver. Every point is tested for membership by independent arithmetic. "
            "Non-trivial: a completed sampling call with at least one adversarial draw or overlapped by another.")
    measure = "distinct (figure, where, source mode, number of points, overlapped or after an interrupt) tuples"
    stubs = ["numpy random source (simulated)", "thread scheduler", "asynchronous exceptions", "standard output"]
    assumptions = ["the source never delivers two exact zeros for the two coordinates of one normal direction "
                   "(numpy's generator does so with probability below 2^-100)",
                   "membership is decided up to 1e-7 of the figure's size"]

    def gen(self, rng, k):
        figs = [figures.gen(rng, c) for c in rng.sample(["Circle", "Ellipse", "Triangle"], 3)]
        if rng.random() < .5:                       # twins of one class share caches, buffers, locks
            figs[1] = figures.gen(rng, figs[0]["cls"])

        def one():
            n = rng.choice(SIZES) if rng.random() < .95 else rng.choice([64, 100, 100, 257, 1000])
            return {"fig": rng.randrange(3), "n": n, "where": rng.choice(["in", "on"]),
                    "mode": rng.choice(MODES), "seed": rng.randrange(1 << 30)}
        calls = []
        for _ in range(8):
            c = one()
            if rng.random() < .15:
                c["fault"], c["kind"] = rng.random(), rng.choice(KINDS)
            if rng.random() < .12:
                c["update"] = figures.gen(rng, figs[c["fig"]]["cls"])
                c["poke"] = rng.random() < .5
            calls.append(c)
        threads = [[one() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        return {"figs": figs, "calls": calls,
                "rounds": [{"threads": threads, "seed": rng.randrange(1 << 30)}] +
                          [{"threads": threads, "seed": rng.randrange(1 << 30)} for _ in range(2)]}

    def op(self, c):
        return lambda f: f.random_points(c["n"], c["where"])

    def run(self, scn, st):
        figs = copy.deepcopy(scn["figs"])
        st.scenario(figs, scn["calls"])
        scene = {"pool": figs, "arrays": []}
        env = catalog.Env(instrument.World(), scene)
        log = []
        hurt = False
        for j, c in enumerate(scn["calls"]):
            if "update" in c:
                self.update(env, figs, c)
                st.add("fault:figure updated")
            f = env[c["fig"]]
            E.rng_override = src = Source(c["seed"], c["mode"])
            hook, info = None, {}
            if "fault" in c:
                if "at" not in c:
                    other = catalog.Env(instrument.World(), scene, [])[c["fig"]]
                    p = core.call(lambda: other.random_points(c["n"], c["where"]))
                    c["at"] = 1 + int(c["fault"] * p.steps)
                    E.rng_override = src = Source(c["seed"], c["mode"])
                hook = core.fault_hook(c["at"], c["kind"], info)
            d = core.call(lambda: f.random_points(c["n"], c["where"]), hook=hook)
            if info:
                st.add("fault:" + c["kind"])
                hurt = True
                continue
            self.judge(figs[c["fig"]], c, d, {"step": j})
            log.append(d.out)
            self.count(st, figs, c, src, hurt, j)
        for n, r in enumerate(scn["rounds"]):
            log.append(self.together(env, figs, r, st, n))
        return tuple(log)

    def count(self, st, figs, c, src, hurt, j):
        st.add("evaluations")
        st.add("points", c["n"])
        if src.special:
            st.add("fault:random source " + c["mode"])
            st.case(j)
        st.inter.add(hash((figs[c["fig"]]["cls"], c["where"], c["mode"], c["n"], hurt)))

    def update(self, env, figs, c):
        """Gives a figure new parameter values, by assignment or in place."""
        i = c["fig"]
        ref = catalog.build_obj(env, c["update"])
        for attr, _ in settable(c["update"]):
            v, old = getattr(ref, attr), getattr(env[i], attr)
            if c["poke"] and isinstance(old, np.ndarray) and old.dtype.kind == "f" and old.flags.writeable:
                old[...] = v
            else:
                setattr(env[i], attr, np.array(v) if isinstance(v, np.ndarray) else v)
        figs[i] = c["update"]

    def judge(self, spec, c, d, what):
        what = dict(what, figure=spec, n=c["n"], where=c["where"], source=c["mode"])
        if d.out[0] != "return":
            raise Violation("sampling fails", outcome=core.describe(d), **what)
        P = d.value
        if not isinstance(P, np.ndarray) or P.shape != (c["n"], 2):
            raise Violation("sampling does not return the requested number of points",
                            got=str(getattr(P, "shape", type(P))), **what)
        if P.dtype.kind != "f" or not np.all(np.isfinite(P)):
            raise Violation("a sampled point is not finite", got=core.describe(d), **what)
        e = figures.excess(spec, c["where"], P)
        tol = figures.tolerance(spec)
        if not np.all(e <= tol):
            j = int(np.argmax(e))
            raise Violation("a sampled point is outside the requested set", point=P[j].tolist(), index=j,
                            excess=float(e[j]), tolerance=tol, **what)

    def together(self, env, figs, r, st, n):
        threads = r["threads"]
        results = [[None] * len(t) for t in threads]
        srcs = [[Source(c["seed"], c["mode"]) for c in t] for t in threads]
        cur = [0] * len(threads)

        def draw(name, args, kw):
            t = E.cur
            return srcs[t.tid][cur[t.tid]](name, args, kw)

        def body_of(i):
            def body(t):
                for j, c in enumerate(threads[i]):
                    cur[i] = j
                    d = results[i][j] = core.Done()
                    f = env[c["fig"]]
                    o, d.value = outcome_of(lambda: f.random_points(c["n"], c["where"]))
                    d.out, d.text = core.norm(o), ""
                    if o[0] == "abort":
                        raise engine.SimAbort(o[1])
            return body
        if "plan" in r:
            pol = PlanPolicy(len(threads), r["plan"])
        else:
            pol = RandomPolicy(random.Random(r["seed"]), len(threads),
                               [sum(12 + (6 * c["n"] if figs[c["fig"]]["cls"] == "Triangle" else 0) for c in t)
                                for t in threads])
        E.rng_override = draw
        sch = Scheduler([body_of(i) for i in range(len(threads))], pol)
        why = sch.run()
        E.total_steps += sum(t.step for t in sch.tasks)
        st.add("fault:preemption", sch.switches)
        r["log"] = [list(x) for x in pol.log]
        what = {"threads": len(threads), "schedule": r["log"][:12], "round": n}
        if why:
            raise Violation("overlapping sampling does not end", why=why, **what)
        for i, t in enumerate(threads):
            for j, c in enumerate(t):
                self.judge(figs[c["fig"]], c, results[i][j], dict(what, thread=i))
                self.count(st, figs, c, srcs[i][j], "overlapped", (n, i, j))
        return tuple(tuple(x) for x in pol.log), tuple(d.out for t in results for d in t)

    def freeze(self, scn):
        c = copy.deepcopy(scn)
        for r in c["rounds"]:
            if "log" in r:
                r["plan"] = r.pop("log")
        return c

    def shrink(self, scn):
        for i in range(len(scn["rounds"])):
            c = copy.deepcopy(scn)
            del c["rounds"][i]
            yield c
        for i in range(len(scn["calls"])):
            c = copy.deepcopy(scn)
            del c["calls"][i]
            yield c
        for i, x in enumerate(scn["calls"]):
            if x["n"] > 1:
                c = copy.deepcopy(scn)
                c["calls"][i]["n"] = x["n"] // 2
                yield c
        for i, r in enumerate(scn["rounds"]):
            plan = r.get("plan") or []
            for size in sorted({len(plan) // 2, len(plan) // 4, 1}, reverse=True):
                if size:
                    for a in range(0, len(plan), size):
                        c = copy.deepcopy(scn)
                        del c["rounds"][i]["plan"][a:a + size]
                        yield c

    def describe(self, scn):
        return {"figures": [f["cls"] for f in scn["figs"]],
                "calls": [(c["fig"], c["n"], c["where"], c["mode"], c.get("kind")) for c in scn["calls"]],
                "threads": [[(c["fig"], c["n"], c["where"], c["mode"]) for c in t]
                            for t in scn["rounds"][0]["threads"]] if scn["rounds"] else []}


CHECK = C06()
