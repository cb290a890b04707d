"""C01: overlapping calls on shared objects never influence each other."""
import copy
import random

from .. import catalog, core, engine, instrument
from ..base import Check
from ..core import Violation
from ..engine import E, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..gen import focus, related, variant


def sub_seed(seed, t, j):
    return (seed * 1000003 + t * 1009 + j) & 0x3FFFFFFF


class C01(Check):
    prop = "C01"
    counts = {"quick": 7200, "thorough": 60000}
    rule = ("One run = a scene and 2-4 threads with 1-3 calls each (operations visited in turn; half of the "
            "competing calls are near-copies of the first one, on the same or a twin object), executed under 8 "
            "seeded schedules (random walk, few preemptions, one preemption) and 4 re-entrant signal handlers in 4 "
            "worlds (each starting cold), at "
            "statement / call / attribute-access granularity. Each call must return, raise and print what it does "
            "alone in a pristine world; shared objects and arrays are compared at every switch and at the end; all "
            "calls are repeated afterwards. Non-trivial: at least one switch happened inside a call.")
    measure = "distinct (operation interrupted, statement, operation that ran in between) triples"
    stubs = ["thread scheduler (real interpreter threads, run one at a time under a seeded scheduler)",
             "threading.Lock/RLock (blocking is a scheduling decision)", "signal delivery", "standard output",
             "numpy random stream (one per call)"]
    assumptions = ["C code of numpy is atomic (it holds the interpreter lock)",
                   "preemption between two bytecodes of one simple expression without calls or attribute reads is "
                   "equivalent to preemption at the next simulation point"]

    def gen(self, rng, k):
        g, op = focus(rng, k)
        n = rng.choice([2, 2, 2, 3, 3, 4])
        threads = [[op]]
        for _ in range(n - 1):
            threads.append([variant(g, op, rng) if rng.random() < .6 else related(g, op, rng)])
        for t in threads:
            while rng.random() < .25 and len(t) < 3:
                t.append(related(g, op, rng))
        flat = [o for t in threads for o in t]
        scene, flat = core.prune(g.scene(), flat)
        it = iter(flat)
        threads = [[next(it) for _ in t] for t in threads]
        S = lambda: {"seed": rng.randrange(1 << 30)}
        H = lambda: {"on": rng.randrange(n) if rng.random() < .4 else 0, "f": rng.random(),
                     "by": rng.randrange(n), "again": rng.random() < .2}
        return {"scene": scene, "threads": threads, "seed": rng.randrange(1 << 30),
                "groups": [[S()], [S(), S(), S()], [S(), H(), S(), H()], [H(), H(), S(), S()]]}

    def run(self, scn, st):
        scene, threads, seed = scn["scene"], scn["threads"], scn["seed"]
        st.scenario(scene, threads)
        base = [[core.alone(scene, op, sub_seed(seed, i, j), True) for j, op in enumerate(t)]
                for i, t in enumerate(threads)]
        return tuple(self.group(scene, threads, seed, base, g, st) for g in scn["groups"])

    def group(self, scene, threads, seed, base, items, st):
        """One world: several overlapped executions in a row, the first one on cold state."""
        env = catalog.Env(instrument.World(), scene, [o for t in threads for o in t])
        before = core.snapshot(env)
        log, frozen = [], []
        detail = {"scenario": {"scene": scene, "threads": threads, "seed": seed, "groups": [frozen]},
                  "calls": [[core.op_text(o) for o in t] for t in threads]}
        for x in items:
            if "on" in x:
                if base[x["on"]][0].steps < 1:
                    continue
                if "at" not in x:
                    x["at"] = core.pick_step(base[x["on"]][0], x["f"])
                detail["handler at step"] = x["at"]
                frozen.append(x)
                log.append(self.reentrant(env, before, threads, seed, base, x, st, detail))
                del detail["handler at step"]
            else:
                log.append(self.scheduled(env, before, threads, seed, base, x, st, detail, frozen))
                del detail["schedule"]
        for i, t in enumerate(threads):
            for j, op in enumerate(t):
                d = core.call(env.bind(op), sub_seed(seed, i, j), limit=8 * base[i][j].steps + 20000)
                if not core.agree(d, base[i][j]):
                    raise Violation("a call made after overlapping ones differs", call=core.op_text(op),
                                    expected=core.describe(base[i][j]), got=core.describe(d), **detail)
        return tuple(log)

    # -- threads
    def scheduled(self, env, before, threads, seed, base, s, st, detail, frozen):
        n = len(threads)
        lengths = [sum(b.steps for b in bs) for bs in base]
        bound = [[core.Bound(env, o) for o in t] for t in threads]
        if "plan" in s:
            pol = PlanPolicy(n, s["plan"])
        else:
            pol = RandomPolicy(random.Random(s["seed"]), n, lengths)
        results = [[None] * len(t) for t in threads]
        seen = {}
        current = [None] * n
        count = [0]

        def body_of(i):
            def body(t):
                for j, b in enumerate(bound[i]):
                    d = results[i][j] = core.Done()
                    current[i] = threads[i][j]["fn"]
                    t.rng, t.rngseed, t.text, t.op = None, sub_seed(seed, i, j), [], j
                    s0 = t.step
                    t.limit = t.step + 8 * base[i][j].steps + 20000
                    o, d.value = outcome_of(b.fn)
                    d.out, d.text, d.steps = core.norm(o), core.tidy("".join(t.text)), t.step - s0
                    current[i] = None
                    if d.out[0] == "abort":
                        raise engine.SimAbort(d.out[1])
            return body
        sch = Scheduler([body_of(i) for i in range(n)], pol)
        inner = pol.at

        def at(t, site):                     # invariant: shared values hold at every switch
            to = inner(t, site)
            if to is not None and to != t.tid:
                st.add("fault:preemption")
                st.inter.add(hash((current[t.tid], site, current[to])))
                st.pairs.add(hash((current[t.tid], site)))
                count[0] += 1
                if not seen and count[0] <= 8:
                    cur, E.cur = E.cur, None
                    ch = core.changed(before, env)
                    E.cur = cur
                    if ch:
                        seen.update(ch, during=current[t.tid])
            return to
        pol.at = at
        aborted = sch.run()
        st.add("evaluations")
        if sch.switches:
            st.case(tuple(pol.log))
        E.total_steps += sum(t.step for t in sch.tasks)
        frozen.append({"plan": [list(x) for x in pol.log]})
        detail["schedule"] = list(pol.log)[:12]
        if aborted:
            raise Violation("overlapping calls do not end", why=aborted, **detail)
        if seen:
            raise Violation("a shared object is seen changed while a call is running", **seen, **detail)
        self.verdict(env, before, bound, threads, base, results, detail)
        return tuple(pol.log), tuple(d.out for r in results for d in r)

    def verdict(self, env, before, bound, threads, base, results, detail):
        for i, t in enumerate(threads):
            for j, op in enumerate(t):
                if results[i][j] is not None and not core.agree(results[i][j], base[i][j]):
                    raise Violation("a call overlapped by others differs", call=core.op_text(op), thread=i,
                                    expected=core.describe(base[i][j]), got=core.describe(results[i][j]), **detail)
        ch = core.changed(before, env)
        if ch:
            raise Violation("a shared object or array is changed by calls", **ch, **detail)
        for bs in bound:
            for b in bs:
                ch = b.changed()
                if ch:
                    raise Violation("an argument is changed by a call", **ch, **detail)

    # -- a signal handler re-enters the library
    def reentrant(self, env, before, threads, seed, base, h, st, detail):
        i, k = h["on"], h["by"]
        outer, inner = core.Bound(env, threads[i][0]), core.Bound(env, threads[k][0])
        got = []

        def hook(t, site):
            if t.step == h["at"] or (h["again"] and t.step == h["at"] + 7):
                st.add("fault:signal handler")
                st.inter.add(hash((threads[i][0]["fn"], site, threads[k][0]["fn"], "handler")))
                got.append(core.call(inner.fn, sub_seed(seed, k, 0), limit=8 * base[k][0].steps + 20000))
        d = core.call(outer.fn, sub_seed(seed, i, 0), hook, limit=8 * base[i][0].steps + 20000)
        st.add("evaluations")
        if got:
            st.case(i, k, h["at"], h["again"])
        for x in got:
            if x.out[0] == "abort":
                raise Violation("a call made by a signal handler does not end", why=x.out[1], **detail)
            if not core.agree(x, base[k][0]):
                raise Violation("a call made by a signal handler differs", expected=core.describe(base[k][0]),
                                got=core.describe(x), **detail)
        self.verdict(env, before, [[outer], [inner]], [[threads[i][0]]], [[base[i][0]]], [[d]], detail)
        return h["at"], d.out, tuple(x.out for x in got)

    def shrink(self, scn):
        items = scn["groups"][0]
        for i in range(len(items)):
            if len(items) > 1:
                c = copy.deepcopy(scn)
                del c["groups"][0][i]
                yield c
        for i, x in enumerate(items):
            if "on" in x:
                if x["again"]:
                    c = copy.deepcopy(scn)
                    c["groups"][0][i]["again"] = False
                    yield c
                continue
            plan = x["plan"]
            for size in sorted({len(plan) // 2, len(plan) // 4, len(plan) // 10, 1}, reverse=True):
                if size < 1 or (size == 1 and len(plan) > 60):
                    continue
                for a in range(0, len(plan), size):
                    c = copy.deepcopy(scn)
                    del c["groups"][0][i]["plan"][a:a + size]
                    yield c
        n = len(scn["threads"])
        for i in range(n):
            for j in range(len(scn["threads"][i]) - 1, -1, -1):
                if len(scn["threads"][i]) > 1:
                    c = copy.deepcopy(scn)
                    del c["threads"][i][j]
                    yield self.pruned(c)
        if n > 2 and not any("on" in x and n - 1 in (x["on"], x["by"]) for x in items):
            i = n - 1
            c = copy.deepcopy(scn)
            del c["threads"][i]
            for x in c["groups"][0]:
                if "plan" in x:
                    x["plan"] = [y for y in x["plan"] if y[0] != i and y[2] != i]
            yield self.pruned(c)

    def pruned(self, c):
        flat = [o for t in c["threads"] for o in t]
        c["scene"], flat = core.prune(c["scene"], flat)
        it = iter(flat)
        c["threads"] = [[next(it) for _ in t] for t in c["threads"]]
        return c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]],
                "threads": [[core.op_text(o) for o in t] for t in scn["threads"]],
                "executions": [[x if "on" in x else {"schedule seed": x.get("seed")} for x in g]
                               for g in scn["groups"]]}


CHECK = C01()
