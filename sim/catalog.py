"""Scenes (pools of geometric objects) and calls, in a symbolic, JSON-able form.

A spec is built into real arguments / objects inside any world, so the same call can be run alone
in a pristine world and inside a simulated run.
"""
import math

import numpy as np

from .canon import SCHEMA

inf = float("inf")


# ------------------------------------------------------------------ building
def build_arg(env, a):
    """env: has .g (module), .pool (objects), .arrays (shared arrays)."""
    k = a[0]
    if k == "n":
        return a[1]
    if k == "p":
        kind = a[2]
        if kind == "t":
            return tuple(a[1])
        if kind == "l":
            return list(a[1])
        return np.array(a[1], dtype=float)
    if k == "o":
        return env.pool[a[1]]
    if k == "A":
        return env.arrays[a[1]]
    if k == "m":
        if a[2] == "l":
            return [list(r) for r in a[1]]
        if a[2] == "lp":
            return [tuple(r) for r in a[1]]
        return np.array(a[1], dtype=float).reshape((-1, 2))
    if k == "mc":
        m = [[complex(*z) for z in r] for r in a[1]]
        return np.array(m) if a[2] == "a" else m
    if k in ("b", "s"):
        return a[1]
    if k == "inf":
        return inf
    if k == "none":
        return None
    if k == "v":
        return list(a[1])
    if k == "va":
        return np.array(a[1], dtype=float)
    raise KeyError(k)


def build_obj(env, spec):
    return getattr(env.g, spec["cls"])(*[build_arg(env, a) for a in spec["args"]],
                                       **{k: build_arg(env, a) for k, a in spec.get("kw", {}).items()})


class Unbuildable(Exception):
    """An object of the scene is rejected by its class."""

    def __init__(self, env, i, error):
        Exception.__init__(self, "%s: %r" % (env.specs[i], error))
        self.scene = {"pool": list(env.specs), "arrays": [a.tolist() for a in env.arrays]}
        self.i, self.error = i, error


class Env:
    """The objects of a scene, alive in one world.  Objects are built when first needed."""

    def __init__(self, world, scene, ops=None):
        self.world = world
        self.g = world.g
        self.arrays = [np.array(a, dtype=float) for a in scene["arrays"]]
        self.specs = scene["pool"]
        self.objs = {}
        self.pool = self
        if ops is None:
            for i in range(len(self.specs)):
                self[i]
        else:
            for op in ops:
                for i in refs(op):
                    self[i]

    def __getitem__(self, i):
        o = self.objs.get(i)
        if o is None:
            try:
                o = self.objs[i] = build_obj(self, self.specs[i])
            except Unbuildable:
                raise
            except Exception as e:
                raise Unbuildable(self, i, e)
        return o

    def bind(self, op):
        """Resolves an op to a zero-argument function (arguments are built now)."""
        fn = op["fn"]
        args = [build_arg(self, a) for a in op.get("args", [])]
        kw = {k: build_arg(self, a) for k, a in op.get("kw", {}).items()}
        self.last = (args, kw)
        if op.get("self") is not None:
            obj = self[op["self"]]
            name = fn.split(".")[1]
            if op.get("prop"):
                return lambda: getattr(obj, name)
            return lambda: getattr(obj, name)(*args, **kw)
        if "." in fn:
            cls, name = fn.split(".")
            target = getattr(self.g, cls)
            return lambda: getattr(target, name)(*args, **kw)
        target = getattr(self.g, fn)
        return lambda: target(*args, **kw)


def refs(op):
    """Pool indices an op (or object spec) refers to."""
    out = []
    if op.get("self") is not None:
        out.append(op["self"])
    for a in list(op.get("args", [])) + list(op.get("kw", {}).values()):
        if a[0] == "o":
            out.append(a[1])
    return out


# ------------------------------------------------------------------ generation
LATTICE = [-4.0, -3.0, -2.0, -1.5, -1.0, -0.5, 0.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0]
ANGLES = [0.0, 30.0, 45.0, 60.0, 90.0, 120.0, 135.0, 180.0, 210.0, 270.0, 300.0, 360.0, -45.0, -90.0, 400.0, 1.0]
RADII = [0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0]


class Gen:
    """Generates a scene and calls on it from a PRNG."""

    def __init__(self, rng, n_objects=10, classes=None):
        self.r = rng
        self.fine = rng.random() < 0.25       # mostly lattice coordinates (degenerate cases), sometimes generic
        self.pool, self.arrays = [], []
        self.classes = classes
        self.points = [self.xy0() for _ in range(6)]
        order = list(SCHEMA) if classes is None else list(classes)
        rng.shuffle(order)
        for i in range(n_objects):
            self.add(order[i % len(order)] if i < len(order) else rng.choice(order))

    # -- scalars
    def c(self):
        r = self.r
        if self.fine or r.random() < 0.15:
            return round(r.uniform(-5, 5), 4)
        return r.choice(LATTICE)

    def rad(self):
        r = self.r
        return round(r.uniform(0.2, 5), 4) if self.fine else r.choice(RADII)

    def ang(self, degrees=True):
        r = self.r
        a = round(r.uniform(-400, 400), 3) if self.fine or r.random() < 0.2 else r.choice(ANGLES)
        return a if degrees else a * math.pi / 180

    def num(self):
        r = self.r
        return r.choice([-3, -2, -1, -0.5, 0.5, 1, 2, 3, 1.5]) if r.random() < .7 else round(r.uniform(-4, 4), 4)

    def boolean(self):
        return self.r.random() < 0.5

    # -- points
    def xy0(self):
        return [self.c(), self.c()]

    def xy(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return list(r.choice(self.points))
        if k < 0.45:                            # on the segment between two known points
            a, b = r.choice(self.points), r.choice(self.points)
            t = r.choice([0.5, 0.25, 2.0, -1.0])
            return [a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])]
        if k < 0.75 and self.pool:
            p = self.on(r.randrange(len(self.pool)))
            if p is not None:
                return p
        p = self.xy0()
        return p

    def on(self, i):
        """A point in special position with respect to object i."""
        s = self.pool[i]
        r = self.r
        if s is None:
            return None
        c, a = s["cls"], s["args"]
        try:
            if c == "Line":
                A, B = a[0][1], a[1][1]
                t = r.choice([0, 1, 0.5, 0.25, 2, -1, 3])
                return [A[0] + t * (B[0] - A[0]), A[1] + t * (B[1] - A[1])]
            if c in ("Circle", "Arc", "Ellipse"):
                O, R = a[0][1], a[1][1]
                t = r.choice([0, 90, 180, 270, 45, 30, r.uniform(0, 360)])
                if t in (0, 90, 180, 270):
                    u = {0: (1, 0), 90: (0, 1), 180: (-1, 0), 270: (0, -1)}[t]
                else:
                    u = (math.cos(math.radians(t)), math.sin(math.radians(t)))
                f = r.choice([1, 1, 1, 0, 0.5, 2])
                if c == "Ellipse":
                    b, al = a[2][1], a[3][1]
                    al = math.radians(al) if s["kw"]["degrees"][1] else al
                    x, y = f * R * u[0], f * b * u[1]
                    return [O[0] + x * math.cos(al) - y * math.sin(al),
                            O[1] + x * math.sin(al) + y * math.cos(al)]
                return [O[0] + f * R * u[0], O[1] + f * R * u[1]]
            if c == "Triangle":
                V = [a[0][1], a[1][1], a[2][1]]
                w = r.choice([(1, 0, 0), (0, 1, 0), (.5, .5, 0), (1 / 3, 1 / 3, 1 / 3), (.2, .3, .5), (2, -1, 0), (.7, .7, -.4)])
                return [sum(w[j] * V[j][0] for j in range(3)), sum(w[j] * V[j][1] for j in range(3))]
            if c in ("Inversion", "Rotation", "Homothety", "Scaling", "ScalingXY", "Shear"):
                return list(a[0][1])
        except Exception:
            return None
        return None

    def pt(self, xy=None):
        if xy is None:
            if self.arrays and self.r.random() < 0.15:
                i = self.r.randrange(len(self.arrays))
                if len(np.shape(self.arrays[i])) == 1:
                    return ["A", i]
            xy = self.xy()
            if self.r.random() < 0.08 and len(self.arrays) < 8:
                self.arrays.append([float(xy[0]), float(xy[1])])
                return ["A", len(self.arrays) - 1]
        return ["p", [float(xy[0]), float(xy[1])] if self.r.random() < .8 else [xy[0], xy[1]],
                self.r.choice(["t", "a", "a", "l"])]

    def pta(self, xy=None):                     # callers of some methods must pass an array or a tuple
        xy = self.xy() if xy is None else xy
        return ["p", xy, self.r.choice(["t", "a"])]

    def arr(self):
        """A shared array of points."""
        n = self.r.choice([1, 2, 3, 5, 9]) if self.r.random() < .95 else self.r.choice([64, 200, 1000])
        self.arrays.append([self.xy() for _ in range(n)])
        return ["A", len(self.arrays) - 1]

    def distinct(self, *others):
        for _ in range(50):
            p = self.xy()
            if all(abs(p[0] - q[0]) + abs(p[1] - q[1]) > 1e-3 for q in others):
                return p
        q = others[0]
        return [q[0] + 1.0, q[1] + 0.5 * len(others) ** 2]

    # -- objects
    def find(self, cls):
        ids = [i for i, s in enumerate(self.pool) if s is not None and s["cls"] == cls]
        if not ids or (self.r.random() < 0.1 and len(self.pool) < 40):
            return self.add(cls)
        return self.r.choice(ids)

    def obj(self, cls):
        return ["o", self.find(cls)]

    def twin(self, cls):
        """Sometimes derive an object from an existing one by changing one parameter."""
        ids = [i for i, s in enumerate(self.pool) if s is not None and s["cls"] == cls]
        if not ids or self.r.random() < 0.55:
            return None
        s = self.pool[self.r.choice(ids)]
        n = {"cls": cls, "args": [list(a) for a in s["args"]], "kw": {k: list(a) for k, a in s["kw"].items()}}
        fresh = self.spec(cls)
        keys = list(range(len(n["args"]))) + list(n["kw"])
        k = self.r.choice(keys)
        if isinstance(k, int):
            n["args"][k] = fresh["args"][k]
            if cls == "Shear" and k == 3:
                n["kw"] = fresh["kw"]
            if cls == "Line" or cls == "Triangle":
                ps = [a[1] for a in n["args"]]
                for i in range(len(ps)):
                    for j in range(i):
                        if abs(ps[i][0] - ps[j][0]) + abs(ps[i][1] - ps[j][1]) < 1e-3:
                            return None
                if cls == "Triangle" and area2(*ps) < 0.05:
                    return None
        else:
            n["kw"][k] = fresh["kw"][k]
            if k == "degrees" and cls == "Shear" and not n["kw"][k][1]:
                return None
        return n

    def put(self, cls, args, kw=None):
        self.pool.append({"cls": cls, "args": args, "kw": kw or {}})
        return len(self.pool) - 1

    def add(self, cls):
        s = self.twin(cls) or self.spec(cls)
        self.pool.append(s)
        for a in s["args"]:
            if a[0] == "p" and len(self.points) < 30:
                self.points.append(list(a[1]))
        return len(self.pool) - 1

    def spec(self, cls):
        r = self.r
        s = {"cls": cls, "args": [], "kw": {}}
        if cls == "Line":
            A = self.xy()
            B = self.distinct(A)
            if r.random() < 0.25:               # parallel or perpendicular to a known line
                for q in self.pool:
                    if q and q["cls"] == "Line" and r.random() < .5:
                        d = [q["args"][1][1][0] - q["args"][0][1][0], q["args"][1][1][1] - q["args"][0][1][1]]
                        if r.random() < .5:
                            d = [-d[1], d[0]]
                        B = [A[0] + d[0], A[1] + d[1]]
                        break
            s["args"] = [self.pt(A), self.pt(B)]
            s["kw"] = {"extendA": ["b", self.boolean()], "extendB": ["b", self.boolean()]}
        elif cls == "Circle":
            O, R = self.xy(), self.rad()
            known = [q for q in self.pool if q and q["cls"] == "Circle"]
            if known and r.random() < 0.35:     # tangent / concentric / congruent with a known circle
                q = r.choice(known)
                O2, R2 = q["args"][0][1], q["args"][1][1]
                k = r.random()
                if k < 0.3:
                    O, R = [O2[0] + R2 + R, O2[1]], R
                elif k < 0.5:
                    O = [O2[0], O2[1] + R2 - R]
                elif k < 0.6:
                    O = list(O2)
                elif k < 0.8:
                    R = R2
                else:
                    R = math.hypot(R2, R)       # orthogonality-like radii
            s["args"] = [self.pt(O), ["n", R]]
        elif cls == "Arc":
            d = self.boolean()
            s["args"] = [self.pt(self.xy()), ["n", self.rad()], ["n", self.ang(d)], ["n", self.ang(d)]]
            s["kw"] = {"degrees": ["b", d]}
        elif cls == "Ellipse":
            d = self.boolean()
            a, b = self.rad(), self.rad()
            if r.random() < .85:
                a, b = max(a, b), min(a, b)
            s["args"] = [self.pt(self.xy()), ["n", a], ["n", b], ["n", self.ang(d)]]
            s["kw"] = {"degrees": ["b", d]}
        elif cls == "Inversion":
            s["args"] = [self.pt(self.xy()), ["n", self.num()]]
        elif cls == "Triangle":
            for _ in range(60):
                A = self.xy()
                B = self.distinct(A)
                C = self.distinct(A, B)
                if area2(A, B, C) > 0.05 or r.random() < 0.02:
                    break
            else:
                C = [A[0] + 1.0, A[1] + 2.0]
            if r.random() < .2:
                A, B, C = r.choice([([0., 0.], [4., 0.], [0., 3.]), ([0., 0.], [2., 0.], [1., math.sqrt(3)]),
                                    ([0., 0.], [1., 5.], [3., 3.]), ([0., 0.], [6., 0.], [3., 1.])])
            s["args"] = [self.pt(A), self.pt(B), self.pt(C)]
        elif cls == "Affine":
            k = r.random()
            m = [[self.num(), self.num()], [self.num(), self.num()]]
            if k < 0.1:
                m = [[1.0, 2.0], [2.0, 4.0]]
            elif k < 0.3:
                m = [[self.num(), 0.0], [0.0, self.num()]]
            s["args"] = [["m", m, r.choice(["l", "a"])], self.pt(self.xy())]
        elif cls == "Mobius":
            k = r.random()
            z = lambda: [self.num(), self.num() if r.random() < .6 else 0.0]
            M = [[z(), z()], [z(), z()]]
            if k < 0.15:
                M[1][0] = [0.0, 0.0]
            elif k < 0.25:
                M = [[z(), [0.0, 0.0]], [[0.0, 0.0], None]]
                M[1][1] = list(M[0][0])
            elif k < 0.35:
                M = [[[1.0, 0.0], z()], [[0.0, 0.0], [1.0, 0.0]]]
            elif k < 0.65:                       # pole on a known figure
                ids = [i for i, q in enumerate(self.pool) if q and q["cls"] in ("Circle", "Line", "Triangle")]
                p = self.on(r.choice(ids)) if ids else None
                if p:
                    M[1][0] = [1.0, 0.0]
                    M[1][1] = [-p[0], -p[1]]
            s["args"] = [["mc", M, r.choice(["l", "a"])]]
        elif cls == "Reflection":
            s["args"] = [self.obj("Line")]
        elif cls == "Projection":
            s["args"] = [self.obj("Line"), ["none"] if r.random() < .5 else self.obj("Line")]
        elif cls == "Rotation":
            d = self.boolean()
            s["args"] = [self.pt(self.xy()), ["n", self.ang(d)]]
            s["kw"] = {"degrees": ["b", d]}
        elif cls == "Shear":
            v = self.distinct([0.0, 0.0])
            d = self.boolean()
            a = r.choice([-60.0, -45.0, -30.0, 0.0, 10.0, 30.0, 45.0, 60.0])
            s["args"] = [self.pt(self.xy()), self.pt(v), ["n", self.rad()], ["n", a if d else a * math.pi / 180]]
            s["kw"] = {"degrees": ["b", d]}
        elif cls == "ScalingXY":
            s["args"] = [self.pt(self.xy()), ["n", self.num()], ["n", self.num()]]
        elif cls == "Homothety":
            s["args"] = [self.pt(self.xy()), ["n", self.num()]]
        elif cls == "Scaling":
            s["args"] = [self.pt(self.xy()), self.pt(self.distinct([0.0, 0.0])), ["n", self.num()]]
        if r.random() < .06:
            self.neutral(cls, s)
        # constructor arguments must not be shared scene arrays here (see the C05 scenarios for that)
        s["args"] = [["p", [float(v) for v in self.arrays[a[1]]], "a"] if a[0] == "A" else a for a in s["args"]]
        return s

    def neutral(self, cls, s):
        """Identities, unit figures, full turns: what shortcuts are made for."""
        r = self.r
        origin = lambda: ["p", [0.0, 0.0], r.choice(["t", "a", "l"])]
        a = s["args"]
        if cls == "Affine":
            a[0] = ["m", [[1.0, 0.0], [0.0, 1.0]], r.choice("la")]
            if r.random() < .8:
                a[1] = origin()
        elif cls == "Mobius":
            a[0] = ["mc", [[[1.0, 0.0], [0.0, 0.0]], [[0.0, 0.0], [1.0, 0.0]]], r.choice("la")]
        elif cls in ("Homothety", "Scaling", "ScalingXY"):
            k = 1.0 if r.random() < .8 else -1.0
            for x in a:
                if x[0] == "n":
                    x[1] = k
            if r.random() < .3:
                a[0] = origin()
        elif cls == "Rotation":
            full = 360.0 if s["kw"]["degrees"][1] else 2 * math.pi
            a[1] = ["n", r.choice([0, 0.0, full, full / 2])]
            if r.random() < .3:
                a[0] = origin()
        elif cls == "Shear":
            a[3] = ["n", 0.0]
        elif cls == "Inversion":
            a[0], a[1] = origin(), ["n", r.choice([1, 1.0, -1.0])]
        elif cls == "Circle":
            a[0], a[1] = origin(), ["n", r.choice([1, 1.0])]
        elif cls == "Arc":
            full = 360.0 if s["kw"]["degrees"][1] else 2 * math.pi
            a[2], a[3] = r.choice([(["n", 0.0], ["n", full]), (["n", 0], ["n", 0]), (list(a[2]), list(a[2]))])
        elif cls == "Ellipse":
            if r.random() < .5:
                a[0] = origin()
            k = r.random()
            if k < .4:
                a[2] = list(a[1])
            if k > .3:
                a[3] = ["n", r.choice([0, 0.0])]

    # -- calls
    def op(self, fn=None, avoid_random=False):
        r = self.r
        names = OP_NAMES_DET if avoid_random else OP_NAMES
        fn = fn or r.choice(names)
        o = OPS[fn](self)
        o["fn"] = fn
        o.setdefault("args", [])
        o.setdefault("kw", {})
        if "." in fn and not o.pop("static", False):
            if o.get("self") is None:
                o["self"] = self.find(fn.split(".")[0])
        if r.random() < 0.04 and o["args"]:     # a wrong argument now and then
            i = r.randrange(len(o["args"]))
            o["args"][i] = r.choice([["s", "oops"], ["n", -1], ["none"], ["p", [1.0, 2.0, 3.0], "t"], ["n", 0], ["b", True]])
        return o

    def scene(self):
        return {"pool": self.pool, "arrays": self.arrays}


def area2(A, B, C):
    return abs((B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0]))


OPS = {}


def opdef(name):
    def d(f):
        OPS[name] = f
        return f
    return d


def simple(cls, names, prop=False):
    for n in names.split():
        OPS[cls + "." + n] = (lambda g, p=prop: {"prop": True} if p else {})


P = lambda g: {"args": [g.pt()]}
N = lambda g: ["n", g.num()]
B = lambda g: ["b", g.boolean()]


def kwmaybe(g, **kw):
    return {k: f(g) for k, f in kw.items() if g.r.random() < .5}


def count(g, usual):
    """A number of points; now and then a large one."""
    return g.r.choice(usual) if g.r.random() < .93 else g.r.choice([64, 129, 200, 257, 1000])


ALLSHOW = [c for c in SCHEMA if c != "Arc"]
for _c in SCHEMA:
    simple(_c, "__str__" if _c == "Arc" else "show __str__")

# Line
simple("Line", "direction_offset")
for _n in ("is_equal", "is_parallel", "is_perpendicular"):
    OPS["Line." + _n] = lambda g: {"args": [g.obj("Line")]}


def _on_self(g, cls):
    i = g.find(cls)
    xy = g.on(i) if g.r.random() < .6 else None
    return i, g.pt(xy)


@opdef("Line.includes")
def _(g):
    if g.r.random() < .4:                       # a lattice line, a point surely on it
        A, d = [float(g.r.randint(-3, 3)), float(g.r.randint(-3, 3))], g.r.choice([(1., 0.), (0., 2.), (1., 1.), (-2., 1.)])
        t = g.r.choice([-1.0, 0.0, 0.5, 1.0, 2.0, 3.0])
        i = g.put("Line", [["p", A, "t"], ["p", [A[0] + d[0], A[1] + d[1]], "a"]],
                  {"extendA": B(g), "extendB": B(g)})
        p = ["p", [A[0] + t * d[0], A[1] + t * d[1]], g.r.choice("ta")]
        return {"self": i, "args": [p], "kw": {"strict": ["b", g.r.random() < .8]}}
    i, p = _on_self(g, "Line")
    return {"self": i, "args": [p], "kw": kwmaybe(g, strict=B, checkCollinear=B)}


@opdef("Line.perpendicular")
def _(g):
    i, p = _on_self(g, "Line")
    if p[0] == "p":
        p[2] = g.r.choice("ta")
    return {"self": i, "args": [p], "kw": kwmaybe(g, extendH=B, extendM=B)}


for _n in ("projection", "distance", "reflection"):
    @opdef("Line." + _n)
    def _(g):
        i, p = _on_self(g, "Line")
        return {"self": i, "args": [p]}
OPS["Line.rotate"] = lambda g: {"args": [["n", g.ang()], g.pt()], "kw": kwmaybe(g, degrees=B)}
OPS["Line.translate"] = P
OPS["Line.invert"] = lambda g: {"args": [g.obj("Inversion")]}
OPS["Line.intersection_with_circle"] = lambda g: {"args": [g.obj("Circle")]}
OPS["Line.intersection_with_ellipse"] = lambda g: {"args": [g.obj(g.r.choice(["Ellipse", "Ellipse", "Circle"]))]}
OPS["Line.intersection_with_line"] = lambda g: {"args": [g.obj("Line")], "kw": kwmaybe(g, strict=B)}
OPS["intersection_line_line"] = lambda g: {"args": [g.obj("Line"), g.obj("Line")], "kw": kwmaybe(g, strict=B)}

# Circle
OPS["Circle.is_equal"] = lambda g: {"args": [g.obj("Circle")]}
for _n in ("includes", "contains", "power"):
    @opdef("Circle." + _n)
    def _(g):
        i, p = _on_self(g, "Circle")
        return {"self": i, "args": [p]}
for _c in ("Circle", "Ellipse", "Triangle"):
    OPS[_c + ".random_points"] = lambda g: {"args": [["n", count(g, [1, 2, 3, 10, 33, 33, 120])]],
                                            "kw": {"where": ["s", g.r.choice(["in", "on", "in", "on", "out"])]}}
OPS["Circle.point_from_angle"] = lambda g: {"args": [["n", g.ang()]], "kw": kwmaybe(g, degrees=B)}


@opdef("Circle.orthogonal_through_two_points_in_circle")
def _(g):
    i = g.find("Circle")
    O, R = g.pool[i]["args"][0][1], g.pool[i]["args"][1][1]

    def inner():
        t, f = g.r.choice([0, 45, 90, 180, 200, g.r.uniform(0, 360)]), g.r.choice([0.1, 0.3, 0.5, 0.8])
        return [O[0] + f * R * math.cos(math.radians(t)), O[1] + f * R * math.sin(math.radians(t))]
    return {"self": i, "args": [g.pt(inner()), g.pt(inner())], "kw": kwmaybe(g, arc=B)}


OPS["Circle.orthogonal_through_two_points_on_circle"] = lambda g: {
    "args": [["n", g.ang(False)], ["n", g.ang(False)]], "kw": kwmaybe(g, arc=B)}
for _n in ("radical_center", "radical_axis", "intersection_with_circle", "is_orthogonal", "angle"):
    OPS["Circle." + _n] = lambda g: {"args": [g.obj("Circle")]}
simple("Circle", "as_ellipse")
OPS["Circle.intersection_with_line"] = lambda g: {"args": [g.obj("Line")]}
for _n in ("circleAB", "circleOA"):
    OPS[_n] = lambda g: {"args": [g.pt(), g.pt()]}
OPS["radical_center"] = lambda g: {"args": [g.obj("Circle"), g.obj("Circle"), g.obj("Circle")]}
OPS["mid_circles"] = lambda g: {"args": [g.obj("Circle"), g.obj("Circle")]}
OPS["intersection_circle_circle"] = lambda g: {"args": [g.obj("Circle"), g.obj("Circle")]}
OPS["intersection_circle_line"] = lambda g: {"args": [g.obj("Circle"), g.obj("Line")]}
OPS["intersection_ellipse_line"] = lambda g: {"args": [g.obj("Ellipse"), g.obj("Line")]}

# Arc
OPS["Arc.path"] = lambda g: {"args": [["n", count(g, [1, 2, 5, 12, 50, 100, 100])]]}
simple("Arc", "starting_point ending_point")

# Ellipse
OPS["Ellipse.is_equal"] = lambda g: {"args": [g.obj(g.r.choice(["Ellipse", "Ellipse", "Circle"]))]}
OPS["Ellipse.path"] = lambda g: {"args": [["n", count(g, [1, 2, 5, 12, 50, 100, 100])]]}
OPS["Ellipse.point_from_angle"] = lambda g: {
    "args": [["n", g.ang()] if g.r.random() < .5 else [g.r.choice(["v", "va", "va"]), [float(g.ang()) for _ in range(g.r.choice([1, 2, 3, 3, 3, 12, 70]))]]], "kw": kwmaybe(g, degrees=B)}
OPS["Ellipse.normal"] = lambda g: {"args": [["n", g.ang(False)]]}
simple("Ellipse", "equation shape_matrix")
for _n in ("includes", "contains"):
    @opdef("Ellipse." + _n)
    def _(g):
        i, p = _on_self(g, "Ellipse")
        return {"self": i, "args": [p]}
OPS["Ellipse.theta2t"] = lambda g: {"args": [["n", g.ang()]], "kw": kwmaybe(g, degrees=B)}
OPS["Ellipse.diameter"] = lambda g: {"args": [["n", g.ang(False)]], "kw": kwmaybe(g, conjugate=B)}
OPS["Ellipse.intersection_with_line"] = lambda g: {"args": [g.obj("Line")]}


def ell_params(g):
    a, b = sorted([g.rad(), g.rad() + 0.1], reverse=True)
    return g.xy(), a, b, math.radians(g.ang())


def ell_points(g, n):
    O, a, b, al = ell_params(g)
    t0 = g.r.uniform(0, 6)
    out = []
    for i in range(n):
        t = t0 + 2 * math.pi * (i + 0.3 * g.r.random()) / n
        x, y = a * math.cos(t), b * math.sin(t)
        out.append([O[0] + x * math.cos(al) - y * math.sin(al), O[1] + x * math.sin(al) + y * math.cos(al)])
    return out


@opdef("Ellipse.from_equation")
def _(g):
    (x, y), a, b, al = ell_params(g)
    s, c = math.sin(al), math.cos(al)
    A, Bq, C = a * a * s * s + b * b * c * c, 2 * (b * b - a * a) * s * c, a * a * c * c + b * b * s * s
    v = [A, Bq, C, -2 * A * x - Bq * y, -Bq * x - 2 * C * y, A * x * x + Bq * x * y + C * y * y - a * a * b * b]
    return {"static": True, "args": [["n", q] for q in v]}


for _n in ("equation_from_five_points", "from_five_points"):
    OPS["Ellipse." + _n] = lambda g: {"static": True, "args": [g.pt(p) for p in ell_points(g, 5)]}


@opdef("Ellipse.from_center_and_matrix")
def _(g):
    a, b, c = 1 + abs(g.num()), 2 + abs(g.num()), g.r.choice([0.0, 0.5, -0.7])
    return {"static": True, "args": [g.pt(), ["m", [[a, c], [c, b]], g.r.choice("la")]]}


def shared_points(g, pts):
    if g.r.random() < .5:
        g.arrays.append([list(p) for p in pts])
        return ["A", len(g.arrays) - 1]
    return ["m", pts, "a"]


OPS["Ellipse.from_boundary4"] = lambda g: {"static": True, "args": [shared_points(g, ell_points(g, 4))]}
OPS["Ellipse.from_boundary3"] = lambda g: {"static": True, "args": [shared_points(g, ell_points(g, 3))]}
OPS["Ellipse.LownerJohnEllipse"] = lambda g: {
    "static": True, "args": [shared_points(g, [[g.c() + 0.01 * i, g.c() - 0.003 * i * i] for i in range(g.r.choice([3, 4, 5, 6, 8, 12, 20]) if g.r.random() < .96 else 60)])]}

# Inversion


@opdef("Inversion.invert")
def _(g):
    i, p = _on_self(g, "Inversion")
    return {"self": i, "args": [["inf"] if g.r.random() < .15 else p]}




@opdef("Inversion.invert_circle")
def _(g):
    if g.r.random() < .35:
        O, R = [float(g.r.randint(-3, 3)), float(g.r.randint(-3, 3))], float(g.r.randint(1, 4))
        i = g.put("Circle", [["p", O, "t"], ["n", R]])
        return {"self": g.put("Inversion", [["p", [O[0] + R, O[1]], "a"], ["n", g.num()]]), "args": [["o", i]]}
    return {"args": [g.obj("Circle")]}


OPS["Inversion.invert_line"] = lambda g: {"args": [g.obj("Line")]}
OPS["Inversion.invert_gcircle"] = lambda g: {"args": [g.obj(g.r.choice(["Circle", "Line"]))]}
OPS["Inversion.compose"] = lambda g: {"args": [g.obj("Inversion")], "kw": kwmaybe(g, left=B)}
OPS["Inversion.on_circle"] = lambda g: {"static": True, "args": [g.obj("Circle")]}
OPS["Inversion.from_swapping_two_circles"] = lambda g: {
    "static": True, "args": [g.obj("Circle"), g.obj("Circle")], "kw": kwmaybe(g, positive=B)}
OPS["Inversion.from_fixing_two_circles"] = lambda g: {"static": True, "args": [g.obj("Circle"), g.obj("Circle")]}
OPS["Inversion.from_fixing_three_circles"] = lambda g: {"static": True, "args": [g.obj("Circle") for _ in range(3)]}
OPS["SteinerChain"] = lambda g: {"args": [g.obj("Circle"), ["n", g.r.choice([3, 4, 5]) if g.r.random() < .96 else 12],
                                          ["n", g.r.choice([0, -0.3, 0.2, 0.4])], ["n", g.r.choice([0, 0.25, 1])]]}
OPS["SteinerChain_phi0_"] = lambda g: {"args": [g.obj("Circle"), ["n", g.r.choice([3, 4, 5])], ["n", g.r.choice([0, 0.25, 1])]]}

# Triangle
simple("Triangle", "flatness a b c edges orientation is_acute angleA angleB angleC", prop=True)
simple("Triangle", "incircle circumcircle excircles orthic_triangle malfatti_circles equal_detour_point steiner_ellipse steiner_inellipse")


@opdef("Triangle.contains")
def _(g):
    i, p = _on_self(g, "Triangle")
    return {"self": i, "args": [p]}


# Affine
simple("Affine", "get3x3matrix inverse")
OPS["Affine.compose"] = lambda g: {"args": [g.obj("Affine")], "kw": kwmaybe(g, left=B)}


def pts_arg(g):
    k = g.r.random()
    if k < .35:
        return g.pt()
    if k < .6:
        return g.arr()
    return ["m", [g.xy() for _ in range(g.r.choice([1, 2, 4]))], g.r.choice(["l", "a"])]


for _c in ("Affine", "Rotation", "Shear", "ScalingXY", "Homothety", "Scaling"):
    OPS[_c + ".transform"] = lambda g: {"args": [pts_arg(g)]}
OPS["Rotation.rotate"] = lambda g: {"args": [pts_arg(g)]}
OPS["Affine.transform_line"] = lambda g: {"args": [g.obj("Line")]}
OPS["Affine.transform_ellipse"] = lambda g: {"args": [g.obj(g.r.choice(["Ellipse", "Ellipse", "Circle"]))]}


@opdef("Affine.from_mapping_three_points")
def _(g):
    a, b = g.spec("Triangle"), g.spec("Triangle")
    return {"static": True, "args": a["args"] + b["args"]}


OPS["Affine.from_ellipse_to_ellipse"] = lambda g: {
    "static": True, "args": [g.obj(g.r.choice(["Ellipse", "Circle"])), g.obj(g.r.choice(["Ellipse", "Circle"]))]}

# Mobius
simple("Mobius", "a b c d", prop=True)
OPS["Mobius.compose"] = lambda g: {"args": [g.obj("Mobius")], "kw": kwmaybe(g, left=B)}
simple("Mobius", "inverse fixed_points")
OPS["Mobius.power"] = lambda g: {"args": [["n", g.r.choice([0, 1, 2, 3, -1, -2, 2.0, 0.5])]]}
OPS["Mobius.gpower"] = lambda g: {"args": [["n", g.r.choice([0.5, 1, 2, -1, -0.5, 1.7])]]}
OPS["Mobius.transform"] = lambda g: {"args": [["inf"] if g.r.random() < .15 else g.pt()]}


def _pole_on_circle(g):
    O, R = [float(g.r.randint(-3, 3)), float(g.r.randint(-3, 3))], float(g.r.randint(1, 4))
    u = g.r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
    return g.put("Circle", [["p", O, g.r.choice("ta")], ["n", R]]), [O[0] + R * u[0], O[1] + R * u[1]]


@opdef("Mobius.transform_circle")
def _(g):
    if g.r.random() < .35:
        i, p = _pole_on_circle(g)
        z = [float(g.num()), float(g.num())]
        m = g.put("Mobius", [["mc", [[[1.0, 0.0], z], [[1.0, 0.0], [-p[0], -p[1]]]], "a"]])
        return {"self": m, "args": [["o", i]]}
    return {"args": [g.obj("Circle")]}


OPS["Mobius.transform_line"] = lambda g: {"args": [g.obj("Line")]}


@opdef("Mobius.from_mapping_three_points")
def _(g):
    def three():
        A = g.xy()
        Bp = g.distinct(A)
        C = g.distinct(A, Bp)
        v = [g.pt(A), g.pt(Bp), g.pt(C)]
        if g.r.random() < .2:
            v[g.r.randrange(3)] = ["inf"]
        return v
    return {"static": True, "args": three() + three()}


OPS["Mobius.from_mapping_one_circle"] = lambda g: {"static": True, "args": [g.obj("Circle"), g.obj("Circle")]}
OPS["cross_ratio"] = lambda g: {"args": [g.pt() for _ in range(4)]}
OPS["unimodular_matrices"] = lambda g: {"args": [["n", g.r.choice([1, 2, 3, 0, 5, 7]) if g.r.random() < .97 else 12]]}

# Reflection, Projection
for _n in ("transform", "reflect"):
    OPS["Reflection." + _n] = lambda g: {"args": [["inf"] if g.r.random() < .1 else g.pt()]}
for _n in ("reflect_circle", "transform_circle"):
    OPS["Reflection." + _n] = lambda g: {"args": [g.obj("Circle")]}
for _n in ("reflect_line", "transform_line"):
    OPS["Reflection." + _n] = lambda g: {"args": [g.obj("Line")]}
simple("Reflection", "get3x3matrix as_affine")
for _n in ("project", "transform"):
    OPS["Projection." + _n] = lambda g: {"args": [g.pt()]}
simple("Projection", "get3x3matrix as_affine")

# Rotation
for _n in ("rotate_circle", "transform_circle"):
    OPS["Rotation." + _n] = lambda g: {"args": [g.obj("Circle")]}
for _n in ("rotate_ellipse", "transform_ellipse"):
    OPS["Rotation." + _n] = lambda g: {"args": [g.obj("Ellipse")]}
for _n in ("rotate_line", "transform_line"):
    OPS["Rotation." + _n] = lambda g: {"args": [g.obj("Line")]}
for _c in ("Rotation", "Shear", "ScalingXY", "Homothety", "Scaling"):
    simple(_c, "get3x3matrix as_affine")
OPS["Homothety.transform_circle"] = lambda g: {"args": [g.obj("Circle")]}
OPS["Scaling.scale_circle"] = lambda g: {"args": [g.obj("Circle")]}

# constructors as calls
for _c in SCHEMA:
    def _mk(g, c=_c):
        s = g.spec(c)
        return {"static": True, "args": s["args"], "kw": s["kw"]}
    OPS[_c] = _mk

OP_NAMES = sorted(OPS)
RANDOM_OPS = {"Circle.random_points", "Ellipse.random_points", "Triangle.random_points", "Ellipse.LownerJohnEllipse"}
OP_NAMES_DET = [n for n in OP_NAMES if n not in RANDOM_OPS]


# which ops return a geometric object of interest for chaining are found at run time
def spec_of(c):
    """Object spec that rebuilds a canonical geometric object (see canon.canon)."""
    _, name, attrs = c
    d = dict(attrs)

    def lit(v):
        if v[0] == "f":
            return ["n", v[1]]
        if v[0] == "c":
            return ["b", v[1]] if v[1] is not None else ["none"]
        if v[0] == "a":
            if v[1] == (2,):
                return ["p", [float(q) for q in v[2]], "a"]
            if name == "Mobius" and v[1] == (2, 2):
                z = [complex(q) for q in v[2]]
                return ["mc", [[[z[0].real, z[0].imag], [z[1].real, z[1].imag]],
                               [[z[2].real, z[2].imag], [z[3].real, z[3].imag]]], "a"]
            if v[1] == (2, 2):
                q = [float(x) for x in v[2]]
                return ["m", [q[:2], q[2:]], "a"]
        raise ValueError(v)
    kw = {}
    args = []
    for k in SCHEMA[name]:
        if k in ("extendA", "extendB", "degrees"):
            kw[k] = lit(d[k])
        elif k in ("line", "D", "Delta", "orthogonal"):
            raise ValueError(k)
        else:
            args.append(lit(d[k]))
    return {"cls": name, "args": args, "kw": kw}
