"""C09: the smallest enclosing ellipse is the same for every random pivot order."""
import copy
import math
import random

import numpy as np

from .. import core, engine, instrument, pointsets
from ..base import Check
from ..core import Violation
from ..engine import E, PlanPolicy, RandomPolicy, Scheduler, outcome_of
from ..pivots import STYLES, Pivots

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
TOL = {"clean": (1e-6, 1e-4), "near": (2e-3, 0.1)}      # containment and area; difference of two results


def limit(n):
    return 3000000 + 5000 * n


class C09(Check):
    prop = "C09"
    counts = {"quick": 400, "thorough": 10000}
    rule = ("One run = two point sets (16 kinds of general and special position: lattices, collinear subsets, "
            "co-elliptic, symmetric, parallelograms, elongated, shifted; the second often a slightly changed first "
            "one), 12 computations that alternate between them under pivot orders of 17 styles (all permutations, "
            "inside-out, outside-in, sorted, contact points last or first, stuck or extreme random source), rows "
            "shuffled and repeated, some interrupted, some through one reused buffer, then two schedules of 2 "
            "threads. Every ellipse must contain all points and its area must not exceed a certified lower bound "
            "(dual of the minimum-area problem, solved independently); all results on one set must coincide. "
            "Non-trivial: a completed computation judged by the certificate.")
    measure = "distinct (point set, sequence of pivot orders answered) pairs"
    stubs = ["numpy random source (simulated, adversarial pivots)", "thread scheduler", "asynchronous exceptions"]
    assumptions = ["points are equal, or apart by 0.2 % of the size of the set before the affine map, or (half "
                   "of the remaining sets) repeated up to a perturbation of 1e-12 to 1e-5: then the tolerances are "
                   "2e-3 instead of 1e-6",
                   "triples are exactly on one line (rounding) or clearly not, except in the sets 'shallow', where "
                   "a vertex of the hull sticks out by 1e-6 to 3e-3 of an edge, and in the large ones (40 to 150 "
                   "points, ordinary pivots)"]

    def gen(self, rng, k):
        A = pointsets.gen(rng, kind=pointsets.KINDS[k % len(pointsets.KINDS)])
        r = rng.random()
        B = None
        if r < .35:                                  # almost the same set
            for _ in range(20):
                B = copy.deepcopy(A)
                i = rng.randrange(len(B["pts"]))
                w = max(abs(p[0] - B["pts"][i][0]) + abs(p[1] - B["pts"][i][1]) for p in B["pts"])
                if B["int"]:
                    B["pts"][i][rng.randrange(2)] += rng.choice([-1, 1])
                else:
                    B["pts"][i][rng.randrange(2)] += w * rng.choice([.3, .05, -.05, -.3])
                if pointsets.separated(B["pts"], 5e-4):
                    break
                B = None
        elif r < .6:
            B = A if rng.random() < .4 else pointsets.gen(
                rng, kind=rng.choice(["edges", "edges", "grid", "lattice", "parallelogram"]))
            B = pointsets.near(rng, B, 10 ** rng.uniform(-12, -5))
        elif r < .7:
            B = copy.deepcopy(A)
            B["pts"] = [[2 * x, 2 * y] for x, y in B["pts"]] if rng.random() < .5 else [[y, x] for x, y in B["pts"]]
        r = rng.random()
        if r < .12:
            B = pointsets.large(rng)
        elif r < .24:
            B = pointsets.shallow(rng)
        elif r < .3:
            B = pointsets.huge(rng)
        if B is None:
            B = pointsets.gen(rng)

        def one(s=None):
            s = rng.randrange(2) if s is None else s
            n = len((A, B)[s]["pts"])
            rows = list(range(n))
            if rng.random() < .7:
                rng.shuffle(rows)
            if rng.random() < .4:
                for _ in range(rng.choice([1, 2, 5])):
                    rows.insert(rng.randrange(len(rows) + 1), rng.randrange(n))
            style = "iid" if n > 30 else rng.choice(STYLES)      # an adversary needs too long on large sets
            return {"set": s, "rows": rows, "style": style, "seed": rng.randrange(1 << 30),
                    "form": "buffer" if rng.random() < .25 else rng.choice(pointsets.FORMS)}
        calls = []
        for j in range(12):
            c = one(j if j < 2 else None)
            if rng.random() < .15:
                c["fault"], c["kind"] = rng.random(), rng.choice(KINDS)
            calls.append(c)
        return {"sets": [A, B], "calls": calls,
                "rounds": [{"threads": [one(), one()], "seed": rng.randrange(1 << 30)} for _ in range(2)]}

    def run(self, scn, st):
        st.scenario(scn["sets"])
        w = instrument.World()
        ell = w.g.Ellipse
        refs = [pointsets.mvee(s["pts"]) for s in scn["sets"]]
        first, buffers, log = {}, {}, []
        typical = [0]
        for j, c in enumerate(scn["calls"]):
            ps = scn["sets"][c["set"]]
            a = self.array(ps, c, buffers)
            E.rng_override = src = Pivots(c["seed"], c["style"], refs[c["set"]]["level"])
            hook, info = None, {}
            if "fault" in c:
                if "at" not in c:
                    c["at"] = 1 + int(c["fault"] * (typical[0] or 2000))
                hook = core.fault_hook(c["at"], c["kind"], info)
            d = core.call(lambda: ell.LownerJohnEllipse(a), hook=hook, limit=limit(len(a)))
            typical[0] = max(typical[0], d.steps)
            if info:
                st.add("fault:" + c["kind"])
                continue
            self.judge(scn, c, d, refs, first, st, {"step": j})
            self.count(scn, c, src, st, j)
            log.append(d.out)
        for n, r in enumerate(scn["rounds"]):
            log.append(self.together(ell, scn, r, refs, first, st, n, typical[0]))
        return tuple(log)

    def array(self, ps, c, buffers):
        if c["form"] != "buffer":
            return pointsets.array(ps, form=c["form"], repeat=c["rows"])
        a = pointsets.array(ps, repeat=c["rows"]).astype(float)
        b = buffers.setdefault(a.shape, a)           # one memory block, overwritten for every computation
        b[...] = a
        return b

    def count(self, scn, c, src, st, j):
        st.add("evaluations")
        st.case(j, c["style"])
        if src.special:
            st.add("fault:adversarial pivots, " + c["style"])
        st.inter.add(hash((core.digest(scn["sets"][c["set"]]), tuple(src.orders))))

    def judge(self, scn, c, d, refs, first, st, what):
        ps, ref = scn["sets"][c["set"]], refs[c["set"]]
        tol, tol2 = TOL["near" if ps["kind"].startswith("near") else "clean"]
        many = len(ps["pts"]) > 200
        what = dict(what, points=ps["pts"], rows=c["rows"], pivots=c["style"], seed=c["seed"])
        if many:
            what.update(points=pointsets.hull(ps["pts"]), inside=len(ps["pts"]), rows=len(c["rows"]))
        e = d.value
        if d.out[0] != "return" or type(e).__name__ != "Ellipse":
            raise Violation("no ellipse is found", outcome=core.describe(d), **what)
        if not all(math.isfinite(float(x)) for x in (e.center[0], e.center[1], e.rmajor, e.rminor, e.alpha)):
            raise Violation("the ellipse is not finite", outcome=core.describe(d), **what)
        lv = pointsets.levels(e, ps["pts"])
        if max(lv) > 1 + tol:
            j = lv.index(max(lv))
            raise Violation("a point is outside the enclosing ellipse", point=ps["pts"][j], excess=lv[j] - 1,
                            outcome=core.describe(d), **what)
        area = math.pi * float(e.rmajor) * float(e.rminor)
        if area > ref["area"] * (1 + tol) * (1 + max(0.0, ref["gap"]) / 3) ** 1.5:
            raise Violation("the enclosing ellipse is not the smallest one", area=area, smallest=ref["area"],
                            outcome=core.describe(d), **what)
        f = first.setdefault(c["set"], e)
        g = pointsets.gap(f, e)
        if g > tol2:
            raise Violation("two computations on the same points give different ellipses", difference=g,
                            outcome=core.describe(d), **what)

    def together(self, ell, scn, r, refs, first, st, n, typical):
        cs = r["threads"]
        srcs = [Pivots(c["seed"], c["style"], refs[c["set"]]["level"]) for c in cs]
        arrays = [self.array(scn["sets"][c["set"]], dict(c, form="float"), {}) for c in cs]
        results = [None] * len(cs)

        def draw(name, args, kw):
            return srcs[E.cur.tid](name, args, kw)

        def body_of(i):
            def body(t):
                d = results[i] = core.Done()
                o, d.value = outcome_of(lambda: ell.LownerJohnEllipse(arrays[i]))
                d.out, d.text = core.norm(o), ""
                if o[0] == "abort":
                    raise engine.SimAbort(o[1])
            return body
        if "plan" in r:
            pol = PlanPolicy(len(cs), r["plan"])
        else:
            pol = RandomPolicy(random.Random(r["seed"]), len(cs), [typical or 2000] * len(cs))
        E.rng_override = draw
        sch = Scheduler([body_of(i) for i in range(len(cs))], pol, limit=2 * limit(50))
        why = sch.run()
        E.total_steps += sum(t.step for t in sch.tasks)
        st.add("fault:preemption", sch.switches)
        r["log"] = [list(x) for x in pol.log]
        what = {"threads": len(cs), "schedule": r["log"][:12], "round": n}
        if why:
            raise Violation("overlapping computations do not end", why=why, **what)
        for i, c in enumerate(cs):
            self.judge(scn, c, results[i], refs, first, st, dict(what, thread=i))
            self.count(scn, c, srcs[i], st, (n, i))
        return tuple(tuple(x) for x in pol.log), tuple(d.out for d in results)

    def signature(self, scn, v):
        return v.kind + "|" + core.digest(v.detail.get("points"))

    def freeze(self, scn):
        c = copy.deepcopy(scn)
        for r in c["rounds"]:
            if "log" in r:
                r["plan"] = r.pop("log")
        return c

    def shrink(self, scn):
        for i in range(len(scn["rounds"])):
            c = copy.deepcopy(scn)
            del c["rounds"][i]
            yield c
        for size in (6, 3, 1):
            for i in range(0, len(scn["calls"]), size):
                c = copy.deepcopy(scn)
                del c["calls"][i:i + size]
                yield c
        for s in (0, 1):
            ps = scn["sets"][s]
            n = len(ps["pts"])
            V = set(pointsets.hull(ps["pts"])) if n > 200 else ()
            drops = [[i] for i in range(n)] if n <= 200 else \
                [[i for i in range(a, min(n, a + size)) if tuple(ps["pts"][i]) not in V]
                 for size in (n // 2, n // 4, n // 16) for a in range(0, n, size)]
            for drop in drops:
                if n <= 3:
                    break
                drop = set(drop)
                new = {i: j for j, i in enumerate(i for i in range(n) if i not in drop)}
                c = copy.deepcopy(scn)
                c["sets"][s]["pts"] = [p for i, p in enumerate(ps["pts"]) if i not in drop]
                if n <= 30 and (not pointsets.separated(c["sets"][s]["pts"], 5e-4)
                        and not ps["kind"].startswith(("near", "shallow"))):
                    continue
                for x in c["calls"] + [y for r in c["rounds"] for y in r["threads"]]:
                    if x["set"] == s:
                        x["rows"] = [new[j] for j in x["rows"] if j in new]
                yield c
        for i, x in enumerate(scn["calls"]):
            if x["form"] != "float":
                c = copy.deepcopy(scn)
                c["calls"][i]["form"] = "float"
                yield c
            seen = list(dict.fromkeys(x["rows"]))
            if len(seen) < len(x["rows"]):
                c = copy.deepcopy(scn)
                c["calls"][i]["rows"] = seen
                yield c
            if x["rows"] != sorted(x["rows"]):
                c = copy.deepcopy(scn)
                c["calls"][i]["rows"] = sorted(x["rows"])
                yield c
        for i, r in enumerate(scn["rounds"]):
            plan = r.get("plan") or []
            for size in sorted({len(plan) // 2, len(plan) // 4, 1}, reverse=True):
                if size:
                    for a in range(0, len(plan), size):
                        c = copy.deepcopy(scn)
                        del c["rounds"][i]["plan"][a:a + size]
                        yield c

    def describe(self, scn):
        return {"sets": [{"kind": s["kind"], "points": s["pts"][:6], "n": len(s["pts"])} for s in scn["sets"]],
                "computations": [(c["set"], c["style"], c["form"], len(c["rows"]), c.get("kind")) for c in scn["calls"]]}


CHECK = C09()
