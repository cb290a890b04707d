"""C07: random points follow the uniform law and are independent from draw to draw."""
import copy
import math
import os
import random

import numpy as np

from .. import catalog, core, engine, figures, instrument
from ..base import Check
from ..core import Violation
from ..engine import E, RandomPolicy, Scheduler, outcome_of, take_rng
from ..history import settable
from ..stats import Tables

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]
ALPHA = 1e-9
COMBOS = [(c, w) for c in ("Circle", "Ellipse", "Triangle") for w in ("in", "on")]


def nclass(n):
    return "n=1" if n == 1 else "n=2" if n == 2 else "n=3-9" if n < 10 else "n=10-63" if n < 64 else "n>=64"


def features(spec):
    a = spec["args"]
    if spec["cls"] == "Circle":
        return ["size " + ("small" if a[1][1] < .9 else "large" if a[1][1] > 1.1 else "one")]
    if spec["cls"] == "Ellipse":
        q = float(a[1][1]) / float(a[2][1])
        return ["degrees" if spec["kw"]["degrees"][1] else "radians",
                "round" if q < 1.0001 else "almost round" if q < 1.1 else "long" if q > 4 else "oval",
                "quadrant %d" % int((figures.angle(spec) % (2 * math.pi)) // (math.pi / 2))]
    T = [x[1] for x in a]
    sides = [math.dist(T[1], T[2]), math.dist(T[0], T[2]), math.dist(T[0], T[1])]
    s = sorted(sides)
    ang = s[2] ** 2 - s[0] ** 2 - s[1] ** 2
    out = ["counterclockwise" if figures.cross(*T) > 0 else "clockwise",
           "longest side " + "abc"[sides.index(s[2])]]
    if s[2] < 1.35 * s[0]:
        out.append("almost equilateral" if s[2] > 1.001 * s[0] else "equilateral")
    elif min(s[2] / s[1], s[1] / s[0]) < 1.1:
        out.append("almost isosceles")
    out.append("right" if abs(ang) < 1e-6 * s[2] ** 2 else "obtuse" if ang > 0 else "acute")
    return out


def pit(spec, where, P):
    """Coordinates that are uniform on [0,1)^2 (in) or [0,1) (on) when the law is right."""
    if spec["cls"] != "Triangle":
        Q = figures.local(spec, P)
        v = np.mod(np.arctan2(Q[:, 1], Q[:, 0]) / (2 * math.pi), 1.0)
        if where == "on":
            return v, None
        return np.clip(Q[:, 0] ** 2 + Q[:, 1] ** 2, 0, 1), v
    T = np.array([x[1] for x in spec["args"]], dtype=float)
    if where == "on":
        L = [np.linalg.norm(T[(i + 1) % 3] - T[i]) for i in range(3)]
        D = np.array([figures.edge_distance(P, T[i], T[(i + 1) % 3]) for i in range(3)])
        k = np.argmin(D, axis=0)
        pos = np.empty(len(P))
        for i in range(3):
            m = k == i
            d = (T[(i + 1) % 3] - T[i]) / L[i]
            pos[m] = sum(L[:i]) + np.clip((P[m] - T[i]) @ d, 0, L[i])
        return np.clip(pos / sum(L), 0, 1), None
    M = np.array([[T[0, 0] - T[2, 0], T[1, 0] - T[2, 0]], [T[0, 1] - T[2, 1], T[1, 1] - T[2, 1]]])
    w = np.linalg.solve(M, (P - T[2]).T)
    wa, wb = w[0], w[1]
    wc = 1 - wa - wb
    return np.clip((1 - wa) ** 2, 0, 1), np.clip(wc / np.maximum(1 - wa, 1e-300), 0, 1)


def by_length(spec):
    """The same triangle with its sides in decreasing order of length."""
    a = spec["args"]
    T = [x[1] for x in a]
    e = sorted(((math.dist(T[i], T[j]), {i, j}) for i, j in ((0, 1), (1, 2), (2, 0))), key=lambda x: -x[0])
    mid = (e[0][1] & e[1][1]).pop()
    first, last = (e[0][1] - {mid}).pop(), (e[1][1] - {mid}).pop()
    return dict(spec, args=[a[first], a[mid], a[last]])


class C07(Check):
    prop = "C07"
    counts = {"quick": 1800, "thorough": 46000}
    rule = ("One run = three figures (one operation and boundary/interior choice per run, visited in turn) sampled 10 "
            "times from one seeded stream, with interrupted calls, updated figures and a round of 2-3 overlapping "
            "threads. All points of all runs are mapped to uniform coordinates and counted by figure, kind of "
            "figure, number of points, circumstances and position in the call; pairs within a call, between calls "
            "and between threads are counted too. Chi-square tests, two-sided, p < 1e-9 (a repeated point is an "
            "immediate violation). Non-trivial: a completed call whose points were counted.")
    measure = "distinct (figure kind, where, number of points, circumstances) tuples"
    stubs = ["numpy random stream (seeded, one per run)", "thread scheduler", "asynchronous exceptions"]
    assumptions = ["numpy's generator itself is sound", "deviations below about 1-2 % of the cell probabilities of "
                   "one class of calls are not resolved by the quick tier"]

    def begin(self):
        self.tables = Tables()

    def gen(self, rng, k):
        cls, where = COMBOS[k % 6]
        figs = [figures.gen(rng, cls, extreme=False) for _ in range(3)]

        def one():
            n = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 6, 9, 10, 12, 20, 31])
            if rng.random() < .07:
                n = rng.choice([64, 100, 128, 150])
            return {"fig": rng.choice([0, 0, 0, 1, 2]), "n": n, "where": where}
        calls = []
        for _ in range(10):
            c = one()
            r = rng.random()
            if r < .15:
                c["fault"], c["kind"] = rng.random(), rng.choice(KINDS)
            elif r < .25:
                c["update"] = figures.gen(rng, cls, extreme=False)
                c["poke"] = rng.random() < .5
            calls.append(c)
        for i, c in enumerate(calls):
            if "fault" in c and i + 1 < len(calls) and rng.random() < .6:      # a retry after the interrupt
                calls[i + 1] = {k: v for k, v in c.items() if k not in ("fault", "kind")}
        threads = [[one() for _ in range(rng.choice([1, 2]))] for _ in range(rng.choice([2, 2, 3]))]
        for t in threads:
            for c in t:
                c["n"] = min(c["n"], 20)
        return {"cls": cls, "where": where, "figs": figs, "calls": calls, "threads": threads,
                "bulk": [{"fig": i, "n": rng.choice([300, 1000, 1500]) if rng.random() < .96 else
                          rng.choice([4000, 10000, 20000])} for i in (0, 1)],
                "burst": {"n": rng.choice([1, 1, 1, 2, 3]), "count": 40, "figs": [rng.randrange(3), rng.randrange(3)]},
                "seed": rng.randrange(1 << 30)}

    def run(self, scn, st, tables=None):
        tables = self.tables if tables is None else tables
        figs = copy.deepcopy(scn["figs"])
        env = catalog.Env(instrument.World(), {"pool": figs, "arrays": []})
        rs = take_rng(scn["seed"])
        st.scenario(scn)

        def draw(name, args, kw):
            return getattr(rs, name)(*args, **kw)
        E.rng_override = draw
        seen = {}
        prev = None
        hurt = False
        log = []
        for j, c in enumerate(scn["calls"]):
            how = "after an interrupt" if hurt else "plain"
            if "update" in c:
                self.update(env, figs, c)
                st.add("fault:figure updated")
                how = "updated figure"
            f = env[c["fig"]]
            hook, info = None, {}
            if "fault" in c:
                state = rs.get_state()
                other = catalog.Env(instrument.World(), {"pool": figs, "arrays": []}, [])[c["fig"]]
                p = core.call(lambda: other.random_points(c["n"], c["where"]))
                rs.set_state(state)
                hook = core.fault_hook(1 + int(c["fault"] * max(1, p.steps)), c["kind"], info)
            d = core.call(lambda: f.random_points(c["n"], c["where"]), hook=hook)
            if info:
                st.add("fault:" + c["kind"])
                hurt = True
                continue
            got = self.take(figs[c["fig"]], c, d, how, tables, seen, st, j)
            log.append(d.out)
            if prev is not None:
                self.pair(tables, scn, "consecutive calls" + (", interrupt between" if hurt else ""), prev, got)
                got = None                    # disjoint pairs only
            prev = got
            hurt = False
        b = scn["burst"]
        prev = None
        for j in range(b["count"]):              # many small calls
            c = {"fig": b["figs"][j % 2], "n": b["n"], "where": scn["where"]}
            f = env[c["fig"]]
            d = core.call(lambda: f.random_points(c["n"], c["where"]))
            got = self.take(figs[c["fig"]], c, d, "burst", tables, seen, st, "burst %d" % j)
            if prev is not None:
                self.pair(tables, scn, "consecutive calls", prev, got)
                got = None
            prev = got
        for j, b in enumerate(scn["bulk"]):      # large calls
            f = env[b["fig"]]
            d = core.call(lambda: f.random_points(b["n"], scn["where"]))
            log.append(core.digest(d.out))
            self.many(figs[b["fig"]], dict(b, where=scn["where"]), d, tables, seen, st, "bulk %d" % j)
        log.append(self.together(env, figs, scn, tables, seen, st))
        return tuple(log)

    def update(self, env, figs, c):
        i = c["fig"]
        ref = catalog.build_obj(env, c["update"])
        for attr, _ in settable(c["update"]):
            v, old = getattr(ref, attr), getattr(env[i], attr)
            if c["poke"] and isinstance(old, np.ndarray) and old.dtype.kind == "f" and old.flags.writeable:
                old[...] = v
            else:
                setattr(env[i], attr, np.array(v) if isinstance(v, np.ndarray) else v)
        figs[i] = c["update"]

    def pair(self, tables, scn, what, a, b):
        """Two batches that must be independent: their first, last and corresponding points."""
        base = "%s %s | %s | " % (scn["cls"], scn["where"], what)
        for x, y, name in ((a[0], b[0], "first-first"), (a[-1], b[0], "last-first")):
            tables.two(base + name + " 1", x[0], y[0])
            if x[1] is not None:
                tables.two(base + name + " 2", x[1], y[1])
                tables.two(base + name + " 12", x[0], y[1])

    def many(self, spec, c, d, tables, seen, st, j):
        n, where, P = c["n"], c["where"], self.points(spec, c, d)
        u, v = pit(spec, where, P)
        base = "%s %s | " % (spec["cls"], where)
        groups = [(base + g, u, v) for g in ["large calls"] + ["large calls, " + f for f in features(spec)]]
        if spec["cls"] == "Triangle":
            s, t = pit(by_length(spec), where, P)
            groups += [(base + "large calls, sides by length" + f, s, t)
                       for f in [""] + [", " + f for f in features(spec)]]
            if where == "on":
                T = [x[1] for x in by_length(spec)["args"]]
                L = [math.dist(T[i], T[(i + 1) % 3]) for i in range(3)]
                for i, name in ((0, "longest"), (1, "middle"), (2, "shortest")):
                    lo, p = sum(L[:i]) / sum(L), L[i] / sum(L)
                    hits = int(np.sum((s >= lo) & (s < lo + p))) if i < 2 else int(np.sum(s >= lo))
                    for f in [""] + [", " + f for f in features(spec)]:
                        tables.score(base + "large calls, %s side%s" % (name, f), hits - n * p, n * p * (1 - p), n)
        for g, s, t in groups:
            tables.many(g + " | 1", s)
            if t is not None:
                tables.many(g + " | 2", t)
                tables.many(g + " | 12", s, t)
        h = n // 2
        for name, a, b in (("neighbours", slice(0, 2 * h, 2), slice(1, 2 * h, 2)),
                           ("halves", slice(0, h), slice(h, 2 * h)),
                           ("mirror images", slice(0, h), slice(n - 1, n - 1 - h, -1)),
                           ("at distance 100", slice(0, 100), slice(100, 200))):
            g = base + "large calls, pairs, " + name
            tables.many(g + " | 1", u[a], u[b])
            if v is not None:
                tables.many(g + " | 2", v[a], v[b])
                tables.many(g + " | 12", u[a], v[b])
        m = 48 * (n // 48)
        where_in = (np.arange(m) + .5) / m
        tables.many(base + "large calls, position | 1", where_in, u[:m])
        if v is not None:
            tables.many(base + "large calls, position | 2", where_in, v[:m])
        self.once(spec, where, P, u.tolist(), [None] * n if v is None else v.tolist(), seen, j, "large call")
        st.add("evaluations")
        st.add("points", n)
        st.case(j)
        st.inter.add(hash((tuple(features(spec)), where, n, "bulk")))

    def points(self, spec, c, d):
        n, P = c["n"], d.value
        if d.out[0] != "return" or not isinstance(P, np.ndarray) or P.shape != (n, 2) or P.dtype.kind != "f" \
                or not np.all(np.isfinite(P)):
            raise Violation("sampling fails", outcome=core.describe(d), figure=spec, n=n, where=c["where"])
        return P

    def once(self, spec, where, P, u, v, seen, j, how):
        for i in range(len(u)):
            key = (round(u[i], 10), round(v[i], 10)) if v[i] is not None else round(u[i], 13)
            if key in seen:
                raise Violation("a random point is repeated", figure=spec, where=where, point=P[i].tolist(),
                                call=j, index=i, first=seen[key], circumstances=how)
            seen[key] = [j, i]
        # a coordinate that comes again, more often than by chance (1e-4 times per run)
        for name, w in (("1", u), ("2", v)):
            if w[0] is None:
                continue
            again = seen.setdefault("again", [])
            for i in range(len(w)):
                if 1e-6 < w[i] < 1 - 1e-6:
                    key = (name, round(w[i], 11))
                    if key in seen:
                        again.append([name, seen[key], [j, i]])
                        if len(again) == 3:
                            raise Violation("random points share coordinates", figure=spec, where=where,
                                            coordinate_first_again=again, circumstances=how)
                    seen[key] = [j, i]

    def take(self, spec, c, d, how, tables, seen, st, j):
        n, where = c["n"], c["where"]
        P = self.points(spec, c, d)
        u, v = pit(spec, where, P)
        u = u.tolist()
        v = [None] * n if v is None else v.tolist()
        base = "%s %s | " % (spec["cls"], where)
        groups = [base + "all", base + nclass(n), base + how] + [base + f for f in features(spec)]
        for g in groups:
            for i in range(n):
                tables.one(g + " | 1", u[i])
                if v[i] is not None:
                    tables.one(g + " | 2", v[i])
                    tables.two(g + " | 12", u[i], v[i])
        tables.one(base + "first point | 1", u[0])
        tables.one(base + "last point | 1", u[-1])
        if v[0] is not None:
            tables.one(base + "first point | 2", v[0])
            tables.one(base + "last point | 2", v[-1])
        # dependence within the call: neighbours, second neighbours, halves, mirror images, position
        if n > 1:
            h = n // 2
            pairs = [("neighbours", [(i, i + 1) for i in range(0, n - 1, 2)]),
                     ("second neighbours", [(i, i + 2) for i in range(0, n - 2, 4)]),
                     ("halves", [(i, i + h) for i in range(h)]),
                     ("mirror images", [(i, n - 1 - i) for i in range(h)])]
            for name, ps in pairs:
                for q in (base + "pairs, " + name, base + "pairs, " + name + ", " + nclass(n)):
                    for i, k in ps:
                        tables.two(q + " | 1", u[i], u[k])
                        if v[i] is not None:
                            tables.two(q + " | 2", v[i], v[k])
                            tables.two(q + " | 12", u[i], v[k])
            if n == 12:                          # position in the call against value, in equal cells
                for i in range(n):
                    tables.two(base + "position | 1", (i + .5) / n, u[i])
                    if v[i] is not None:
                        tables.two(base + "position | 2", (i + .5) / n, v[i])
        self.once(spec, where, P, u, v, seen, j, how)
        st.add("evaluations")
        st.add("points", n)
        st.case(j)
        st.inter.add(hash((tuple(features(spec)), where, n, how)))
        return list(zip(u, v))

    def together(self, env, figs, scn, tables, seen, st):
        threads = scn["threads"]
        results = [[None] * len(t) for t in threads]

        def body_of(i):
            def body(t):
                for j, c in enumerate(threads[i]):
                    d = results[i][j] = core.Done()
                    f = env[c["fig"]]
                    o, d.value = outcome_of(lambda: f.random_points(c["n"], c["where"]))
                    d.out, d.text = core.norm(o), ""
                    if o[0] == "abort":
                        raise engine.SimAbort(o[1])
            return body
        pol = RandomPolicy(random.Random(scn["seed"]), len(threads),
                           [sum(12 + (6 * c["n"] if scn["cls"] == "Triangle" else 0) for c in t) for t in threads])
        sch = Scheduler([body_of(i) for i in range(len(threads))], pol)
        why = sch.run()
        E.total_steps += sum(t.step for t in sch.tasks)
        st.add("fault:preemption", sch.switches)
        if why:
            raise Violation("overlapping sampling does not end", why=why)
        firsts = []
        for i, t in enumerate(threads):
            for j, c in enumerate(t):
                got = self.take(figs[c["fig"]], c, results[i][j], "overlapped", tables, seen, st, "thread %d" % i)
                if j == 0:
                    firsts.append(got)
        self.pair(tables, scn, "threads", firsts[0], firsts[1])
        return tuple(tuple(x) for x in pol.log), tuple(d.out for t in results for d in t)

    # -- the tests over all runs
    def extra(self):
        return self.tables.t

    def conclude(self, extras):
        total = Tables()
        for t in extras:
            total.merge(t or {})
        bad, self.tested = total.failures(ALPHA)
        if os.environ.get('C07_SHOW'):
            x, _ = total.failures(1.1)
            print(self.tested, [(p, k, r['points']) for p, k, r in x[:6]])
        if not bad:
            return []
        p, key, r = bad[0]
        return [{"k": 0, "kind": "the law of the random points is wrong",
                 "detail": {"test": key, "p": p, "points": r["points"], "chi2": round(r["chi2"], 2),
                            "cells": r["cells"], "too": "uneven" if r["uneven"] < r["even"] else "even",
                            "counts": r["counts"], "tests failed": len(bad), "tests made": self.tested},
                 "scenario": {"test": key, "runs": self.total_runs, "seed": self.seed}}]

    def replay(self, scn, execute):
        if "test" not in scn:
            return Check.replay(self, scn, execute)
        from ..run import run_seed
        st = core.Stats()
        want = "%s %s" % tuple(scn["test"].split(" ")[:2])
        for k in range(scn["runs"]):
            if "%s %s" % COMBOS[k % 6] != want:
                continue
            s = self.gen(random.Random(run_seed("C07", scn["seed"], k)), k)
            log, v = execute(self, s, st)
            if v is not None:
                return v
            if k % 60 < 6 or k >= scn["runs"] - 6:
                r = self.tables.test(scn["test"]) if scn["test"] in self.tables.t else None
                if r and min(r["uneven"], r["even"]) < ALPHA:
                    return Violation("the law of the random points is wrong", test=scn["test"],
                                     p=min(r["uneven"], r["even"]), points=r["points"], counts=r["counts"],
                                     runs=k + 1)
        return None

    def shrink(self, scn):
        if "test" in scn:
            return
        if scn["bulk"]:
            c = copy.deepcopy(scn)
            c["bulk"] = []
            yield c
        if scn["burst"]["count"]:
            c = copy.deepcopy(scn)
            c["burst"]["count"] = 0
            yield c
        for i in range(len(scn["calls"])):
            c = copy.deepcopy(scn)
            del c["calls"][i]
            yield c

    def describe(self, scn):
        return {"figure": scn["cls"], "where": scn["where"],
                "calls": [(c["fig"], c["n"], c.get("kind")) for c in scn["calls"]],
                "threads": [[(c["fig"], c["n"]) for c in t] for t in scn["threads"]]}


CHECK = C07()
