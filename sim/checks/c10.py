"""C10: the enclosing-ellipse search always finishes and treats its input as read-only."""
import copy
import math
import sys

import numpy as np

from .. import core, engine, instrument, pointsets
from ..base import Check
from ..canon import canon
from ..core import Violation
from ..engine import E, SITE_RNG
from ..pivots import STYLES, Pivots
from .c09 import KINDS, limit

DEPTH = 100            # nested calls at most (5 points determine an ellipse)

# twenty points of a thin, nearly vertical ellipse
THIN = [
    [-3.087975863149086, 202.34600327065021], [-4.531338014770915, 192.57345679610353], [-6.414345484342013,
    164.94687158011402], [-8.494020317846815, 76.28323024310605], [-8.606237818988332, 24.724895823202836],
    [-8.199883657396036, -24.064706525991152], [-7.149433498607523, -78.80760082915187], [-4.610623610003019,
    -148.09644390906575], [-2.204684596059873, -183.89571419579195], [1.1098572799764843,
    -204.59998724441368], [3.2007523009376455, -201.85371073364416], [5.013564353417993, -187.4058729176791],
    [7.200635513042894, -145.03349886750178], [8.44576510099784, -81.75272769583916], [8.605333562186289,
    -24.46010772240404], [8.276639767305964, 17.99547610071219], [6.353207956239084, 106.00281267813756],
    [5.599575721618083, 126.46250694047005], [1.672737754957242, 189.27197003416123], [-0.1842865454062323,
    201.8354687128196]]
ROWS = [2, 9, 12, 10, 8, 19, 0, 11, 14, 13, 5, 15, 4, 18, 17, 16, 1, 6, 3, 7]


class Depth:
    """Deepest nesting of calls seen, sampled at draws of the random source and every 61 steps."""

    def __init__(self, inner=None):
        self.max, self.base, self.inner = 0, None, inner

    def __call__(self, t, site):
        if site == SITE_RNG or t.step % 61 == 1:
            f, n = sys._getframe(), 0
            while f is not None:
                n += 1
                f = f.f_back
            if self.base is None:
                self.base = n
            self.max = max(self.max, n - self.base)
        if self.inner is not None:
            self.inner(t, site)


class C10(Check):
    prop = "C10"
    counts = {"quick": 1600, "thorough": 20000}
    rule = ("One run = 8 computations on point sets of one class: clean (16 kinds), with near-duplicates (relative "
            "distance 1e-12 to 1e-2), on one line, or large (300 to 4000 points: circles, grids, random clouds), "
            "under pivot orders of 17 styles, in read-only, strided, Fortran-ordered, integer arrays, with rows "
            "repeated, some with boundary points given, some interrupted and repeated. Outcome (an ellipse / None), "
            "number of steps, nesting depth and every byte of the caller's memory are compared. Non-trivial: a "
            "computation that ran to its end or was interrupted inside the search.")
    measure = "distinct (kind of point set, number of points, pivot style, array form, interrupted or not) tuples"
    stubs = ["numpy random source (simulated, adversarial pivots)", "asynchronous exceptions"]
    assumptions = ["adversarial pivot orders are used up to 40 points; larger sets use ordinary random pivots",
                   "nesting depth is sampled at every draw of the random source and every 61 steps"]

    def gen(self, rng, k):
        r = rng.random()
        if k == 11:                          # a search that once needed n^5 nested searches
            return {"class": "clean", "sets": [{"kind": "coelliptic", "pts": THIN, "int": False}], "k": k,
                    "calls": [{"set": 0, "rows": ROWS, "style": s, "seed": 1052694694, "form": "float"}
                              for s in ("inside", "iid", "x", "iid")]}
        if k % 25 == 7:
            return self.big(rng, k)
        if r < .2:
            cls, sets = "line", [pointsets.line(rng) for _ in range(3)]
        elif r < .45:
            cls = "near"
            sets = [pointsets.near(rng, pointsets.gen(rng), 10 ** rng.uniform(-12, -2)) for _ in range(2)]
        else:
            cls, sets = "clean", [pointsets.gen(rng, kind=pointsets.KINDS[k % len(pointsets.KINDS)]),
                                  pointsets.gen(rng)]
            if rng.random() < .15:
                sets.append(pointsets.gen(rng, n=rng.choice([14, 20, 30]), kind=rng.choice(["coelliptic", "polygon"])))
        calls = []
        for _ in range(8):
            s = rng.randrange(len(sets))
            n = len(sets[s]["pts"])
            rows = list(range(n))
            rng.shuffle(rows)
            if rng.random() < .5:
                for _ in range(rng.choice([1, 2, 5, 30])):
                    rows.insert(rng.randrange(len(rows) + 1), rng.randrange(n))
            c = {"set": s, "rows": rows, "style": rng.choice(STYLES), "seed": rng.randrange(1 << 30),
                 "form": rng.choice(pointsets.FORMS)}
            if n > 14:                       # an adversary may need n^5 nested searches, a random order must not
                c["style"] = "iid"
            if rng.random() < .3:
                c["fault"], c["kind"] = rng.random(), rng.choice(KINDS)
            elif cls == "clean" and rng.random() < .15:
                c["bpoints"] = rng.choice([1, 2])
            calls.append(c)
        return {"class": cls, "sets": sets, "calls": calls}

    def big(self, rng, k):
        n = rng.choice([300, 1000, 2000, 4000])
        kind = rng.choice(["coelliptic", "generic", "grid", "line", "repeated", "hull"])
        if kind == "coelliptic":
            P = pointsets.base(rng, kind, min(n, 1500))
        elif kind == "generic":
            P = pointsets.base(rng, kind, n)
        elif kind == "grid":
            m = int(math.sqrt(n))
            P = [[float(i), float(j)] for i in range(m) for j in range(m)]
        elif kind == "line":
            P = [[float(i), 2.0 * i] for i in range(n)]
        elif kind == "repeated":
            Q = pointsets.gen(rng)["pts"]
            P = [list(rng.choice(Q)) for _ in range(n)] + Q
        else:
            P = pointsets.base(rng, "coelliptic", 400)
            P += [[.5 * x, .5 * y] for x, y in P]
        ps = {"kind": "big " + kind, "pts": P, "int": False}
        calls = [{"set": 0, "rows": [], "style": "iid", "seed": rng.randrange(1 << 30), "form": f}
                 for f in rng.sample(["float", "readonly", "strided", "fortran"], 2)]
        return {"class": "line" if kind == "line" else "big", "sets": [ps], "calls": calls}

    def run(self, scn, st):
        if "seeded" not in scn:
            st.scenario(scn["sets"] if scn["class"] != "big" else [len(scn["sets"][0]["pts"]), scn["k"]])
        ell = instrument.World().g.Ellipse
        log, done = [], {}
        typical = 3000
        for j, c in enumerate(scn["calls"]):
            ps = scn["sets"][c["set"]]
            a = pointsets.array(ps, form=c["form"], repeat=c["rows"])
            args = (a,)
            if c.get("bpoints"):
                args = self.boundary(ps, c)
                if args is None:
                    continue
            blocks = [x.base if x.base is not None else x for x in args]
            before = [np.array(b) for b in blocks]
            locks = [x.flags.writeable for x in args]
            E.rng_override = src = Pivots(c["seed"], c["style"])
            info = {}
            if "fault" in c:
                if "at" not in c:
                    c["at"] = 1 + int(c["fault"] * typical)
                hook = Depth(core.fault_hook(c["at"], c["kind"], info))
            else:
                hook = Depth()
            d = core.call(lambda: ell.LownerJohnEllipse(*args), hook=hook, limit=limit(len(a)))
            what = {"class": scn["class"], "kind of points": ps["kind"], "points": ps["pts"][:20], "n": len(a),
                    "pivots": c["style"], "form": c["form"], "step": j}
            for b, x in zip(blocks, before):
                if b.dtype != x.dtype or b.shape != x.shape or b.tobytes() != x.tobytes():
                    raise Violation("the search changes the caller's array", before=x.tolist(), after=b.tolist(),
                                    fault=c.get("kind"), **what)
            if locks != [x.flags.writeable for x in args]:
                raise Violation("the search changes whether the caller's array may be written to", fault=c.get("kind"),
                                **what)
            st.add("evaluations")
            st.case(j)
            st.inter.add(hash((ps["kind"], len(a), c["style"], c["form"], bool(info))))
            if src.special:
                st.add("fault:adversarial pivots, " + c["style"])
            if hook.max > DEPTH:
                raise Violation("the search nests too deep", depth=hook.max, **what)
            if info:
                st.add("fault:" + c["kind"])
                st.pairs.add(hash(info["site"]))
                continue
            typical = max(typical, d.steps) if scn["class"] != "line" else d.steps
            if d.out[0] == "abort":
                raise Violation("the search does not end", why=d.out[1], steps=d.steps, **what)
            if d.out[0] == "raise":
                raise Violation("the search fails", outcome=d.out, **what)
            if scn["class"] == "line":
                if d.value is not None:
                    raise Violation("an ellipse is found for points on one line", outcome=core.describe(d), **what)
            else:
                e = d.value
                if type(e).__name__ != "Ellipse":
                    raise Violation("no ellipse is found", outcome=core.describe(d), **what)
                v = (e.center[0], e.center[1], e.rmajor, e.rminor, e.alpha)
                if not all(math.isfinite(float(x)) for x in v):
                    raise Violation("the ellipse is not finite", outcome=core.describe(d), **what)
                if not c.get("bpoints"):
                    f = done.setdefault(c["set"], e)
                    if scn["class"] != "near" and pointsets.gap(f, e) > 1e-4:
                        raise Violation("a later run gives another answer", outcome=core.describe(d),
                                        first=str(canon(f))[:200], **what)
            log.append(d.out)
        return tuple(log)

    def boundary(self, ps, c):
        """Points of the set that are on the smallest ellipse, given as such."""
        ref = pointsets.mvee(ps["pts"])
        if ref["gap"] > 1e-6:
            return None
        lv = ref["level"](ps["pts"])
        on = [i for i in range(len(lv)) if lv[i] > 1 - 1e-7]
        hull = [i for i in range(len(lv))]
        if len(on) < 3:
            return None
        b = on[:c["bpoints"]]
        flat = any(abs((P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0])) < 1e-9
                   for P in _triples(ps["pts"]))
        if flat:
            return None
        i = pointsets.array({"pts": [ps["pts"][j] for j in hull if j not in b], "int": ps["int"]}, form=c["form"])
        return i, pointsets.array({"pts": [ps["pts"][j] for j in b], "int": ps["int"]}, form=c["form"])

    def signature(self, scn, v):
        return v.kind + "|" + core.digest(v.detail.get("points"))

    def shrink(self, scn):
        for i in range(len(scn["calls"])):
            c = copy.deepcopy(scn)
            del c["calls"][i]
            yield c
        if scn["class"] in ("clean", "near", "line"):
            for i, x in enumerate(scn["calls"]):
                seen = list(dict.fromkeys(x["rows"]))
                for rows in (sorted(seen), seen):
                    if rows != x["rows"]:
                        c = copy.deepcopy(scn)
                        c["calls"][i]["rows"] = rows
                        yield c
                if x["form"] != "float":
                    c = copy.deepcopy(scn)
                    c["calls"][i]["form"] = "float"
                    yield c
            for s, ps in enumerate(scn["sets"]):
                for i in range(len(ps["pts"])):
                    c = copy.deepcopy(scn)
                    del c["sets"][s]["pts"][i]
                    left = c["sets"][s]["pts"]
                    if len(left) < (1 if scn["class"] == "line" else 3):
                        continue
                    if scn["class"] == "clean" and not pointsets.separated(left, 5e-4):
                        continue
                    if scn["class"] == "near" and not _fat(left):
                        continue
                    for x in c["calls"]:
                        if x["set"] == s:
                            x["rows"] = [j - (j > i) for j in x["rows"] if j != i]
                    yield c

    def describe(self, scn):
        return {"class": scn["class"], "sets": [{"kind": s["kind"], "n": len(s["pts"]), "points": s["pts"][:5]}
                                                for s in scn["sets"]],
                "computations": [(c["set"], c["style"], c["form"], len(c["rows"]), c.get("kind"), c.get("bpoints"))
                                 for c in scn["calls"]]}


def _triples(P):
    for i in range(len(P)):
        for j in range(i):
            for k in range(j):
                yield P[i], P[j], P[k]


def _fat(P):
    size = max(max(abs(p[0] - q[0]), abs(p[1] - q[1])) for p in P for q in P)
    return any(abs((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) > 1e-2 * size * size
               for p, q, r in _triples(P))


CHECK = C10()
