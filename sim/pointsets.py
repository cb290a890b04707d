"""Planar point sets for the smallest-enclosing-ellipse search, and an independent oracle for it."""
import math

import numpy as np

KINDS = ["generic", "generic", "gauss", "lattice", "lattice", "grid", "polygon", "coelliptic", "coelliptic",
         "parallelogram", "symmetric", "edges", "few", "few", "clusters", "inner", "rim", "rim"]


def base(rng, kind, n):
    """Points of order one, in general or special position."""
    u = lambda: rng.uniform(-1, 1)
    if kind == "generic":
        return [[u(), u()] for _ in range(n)]
    if kind == "gauss":
        return [[rng.gauss(0, .5), rng.gauss(0, .5)] for _ in range(n)]
    if kind == "lattice":
        m = rng.choice([2, 3, 4])
        return [[float(rng.randint(-m, m)), float(rng.randint(-m, m))] for _ in range(n)]
    if kind == "grid":
        a, b = rng.choice([2, 3, 4]), rng.choice([2, 2, 3])
        return [[float(i), float(j)] for i in range(a) for j in range(b)]
    if kind == "polygon":
        m = max(3, min(n, 9))
        t0 = rng.choice([0.0, math.pi / 4, rng.uniform(0, 6)])
        return [[math.cos(t0 + 2 * math.pi * i / m), math.sin(t0 + 2 * math.pi * i / m)] for i in range(m)]
    if kind == "coelliptic":
        a, b, al = rng.uniform(.5, 1), rng.uniform(.3, 1), rng.choice([0.0, rng.uniform(0, 3.2)])
        ts = [i * 2 * math.pi / n + rng.uniform(0, 5 / n) for i in range(n)]
        return [[a * math.cos(t) * math.cos(al) - b * math.sin(t) * math.sin(al),
                 a * math.cos(t) * math.sin(al) + b * math.sin(t) * math.cos(al)] for t in ts]
    if kind == "rim":                        # all of them close to one ellipse, inside or outside of it
        a, b, al, d = rng.uniform(.5, 1), rng.uniform(.4, 1), rng.uniform(0, 3.2), rng.choice([1e-4, 1e-3, 5e-3, 3e-2])
        out = []
        for i in range(n):
            t, r = i * 2 * math.pi / n + rng.uniform(0, 5 / n), 1 - d * rng.random()
            x, y = r * a * math.cos(t), r * b * math.sin(t)
            out.append([x * math.cos(al) - y * math.sin(al), x * math.sin(al) + y * math.cos(al)])
        return out
    if kind == "parallelogram":
        p, q = [u(), u()], [u(), u()]
        if rng.random() < .5:
            p, q = rng.choice([([1., 0.], [0., 1.]), ([2., 0.], [0., 1.]), ([1., 0.], [.5, math.sqrt(3) / 2])])
        out = [[0., 0.], p, q, [p[0] + q[0], p[1] + q[1]]]
        return out + [[u() * .1 + (p[0] + q[0]) / 2, u() * .1 + (p[1] + q[1]) / 2] for _ in range(rng.choice([0, 0, 1, 3]))]
    if kind == "symmetric":
        out = []
        for _ in range(max(2, n // 2)):
            x, y = u(), u()
            out += [[x, y], [-x, y]] if rng.random() < .8 else [[0.0, y]]
        if rng.random() < .3:
            out += [[x, -y] for x, y in out]
        return out
    if kind == "edges":                      # many points on the edges of a triangle or quadrilateral
        V = [[-1., -1.], [1., -1.], [0., 1.]] if rng.random() < .5 else [[-1., -1.], [1., -1.], [1., 1.], [-1., .5]]
        out = list(V)
        for _ in range(n):
            i = rng.randrange(len(V))
            t = rng.choice([.5, .25, .75, .125])
            a, b = V[i], V[(i + 1) % len(V)]
            out.append([a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])])
        return out
    if kind == "few":
        return [[u(), u()] for _ in range(rng.choice([3, 4, 5]))]
    if kind == "clusters":
        cs = [[u(), u()] for _ in range(3)]
        return [[c[0] + .15 * u(), c[1] + .15 * u()] for c in cs for _ in range(max(1, n // 3))]
    if kind == "inner":                      # a small hull around many points
        out = [[-1., -.8], [1., -.9], [rng.uniform(-.3, .3), 1.]]
        return out + [[.2 * u(), .2 * u() - .2] for _ in range(n)]
    raise KeyError(kind)


def separated(P, eps=2e-3):
    """Points are equal or clearly apart; triples are on one line or clearly not; not all on one line."""
    Q = [list(q) for q in dict.fromkeys(tuple(p) for p in P)]
    if len(Q) < 3:
        return False
    size = max(max(abs(p[0] - q[0]), abs(p[1] - q[1])) for p in Q for q in Q)
    for i in range(len(Q)):
        for j in range(i):
            if math.hypot(Q[i][0] - Q[j][0], Q[i][1] - Q[j][1]) < eps * size:
                return False
    flat = 0.0
    n = len(Q)
    for i in range(n):
        for j in range(i):
            d = math.hypot(Q[j][0] - Q[i][0], Q[j][1] - Q[i][1])
            for k in range(j):
                h = abs((Q[j][0] - Q[i][0]) * (Q[k][1] - Q[i][1]) - (Q[j][1] - Q[i][1]) * (Q[k][0] - Q[i][0])) / d
                if 1e-12 * size < h < eps * size:
                    return False
                flat = max(flat, h)
    return flat > 0.02 * size


def gen(rng, n=None, kind=None):
    """A point set with distinct points in 'pts' (see separated)."""
    for _ in range(200):
        k = kind or rng.choice(KINDS)
        P = base(rng, k, n or rng.choice([3, 4, 5, 6, 7, 8, 10]))
        P = [list(q) for q in dict.fromkeys(tuple(p) for p in P)]
        if len(P) <= 40 and not separated(P):
            continue
        ints = k in ("lattice", "grid") and rng.random() < .6
        if not ints:
            s = rng.choice([1, 1, 1, 1e-2, 10.0, 1e2])
            a = rng.choice([1, 1, 1, 3, 10, 30])
            t = rng.choice([0.0, rng.uniform(0, 3.2)])
            far = rng.choice([0, 0, 1, 1, 5])
            sh = [far * rng.uniform(-1, 1) * s, far * rng.uniform(-1, 1) * s]
            if a != 1 or t != 0.0:
                c, d = math.cos(t), math.sin(t)
                P = [[c * a * x - d * y, d * a * x + c * y] for x, y in P]
            P = [[s * x + sh[0], s * y + sh[1]] for x, y in P]
        return {"kind": k, "pts": P, "int": ints}
    raise RuntimeError("no point set")


LARGE = ["generic", "gauss", "coelliptic", "coelliptic", "rim", "clusters", "inner"]


def large(rng):
    """Many points, no two closer than 0.1 % of the size."""
    k = rng.choice(LARGE)
    n = 40 if k in ("coelliptic", "rim") else rng.choice([40, 80, 150])
    P = base(rng, k, n)
    if k == "coelliptic":                    # evenly spread
        i, a = rng.random(), rng.uniform(.3, 1)
        P = [[math.cos(2 * math.pi * (j + i) / n), a * math.sin(2 * math.pi * (j + i) / n)] for j in range(n)]
    size = max(max(abs(p[0] - q[0]), abs(p[1] - q[1])) for p in P for q in P)
    out = []
    for p in P:
        if all(math.hypot(p[0] - q[0], p[1] - q[1]) > 1e-3 * size for q in out):
            out.append(p)
    t, s = rng.uniform(0, 3.2), rng.choice([1, 1, 10.0, .1])
    c, d = math.cos(t), math.sin(t)
    return {"kind": k, "pts": [[s * (c * x - d * y), s * (d * x + c * y)] for x, y in out], "int": False}


def huge(rng):
    """Hundreds or thousands of points with a hull of few, clearly separated vertices."""
    while True:
        n = rng.choice([260, 520, 1100, 2500])
        H = [[math.cos(t), rng.uniform(.4, 1) * math.sin(t)]
             for t in sorted(rng.uniform(0, 2 * math.pi) for _ in range(rng.choice([3, 4, 5, 7, 9])))]
        if not separated(H):
            continue
        P = list(H)
        if rng.random() < .5:                # one vertex is far nearer to the middle of the others
            H[0] = P[0] = [.5 * x for x in P[0]]
        while len(P) < n:                    # strictly inside the hull
            w = [rng.random() for _ in H]
            s, f = sum(w), rng.choice([.5, .9, .97])
            c = [sum(h[i] for h in H) / len(H) for i in (0, 1)]
            P.append([c[i] + f * (sum(a * h[i] for a, h in zip(w, H)) / s - c[i]) for i in (0, 1)])
        rng.shuffle(P)
        V = hull(P)
        if len(V) > 2 and separated([list(p) for p in V]):
            return {"kind": "huge", "pts": P, "int": False}


def hull(P):
    P = sorted(tuple(p) for p in P)

    def half(Q):
        o = []
        for p in Q:
            while len(o) > 1 and ((o[-1][0] - o[-2][0]) * (p[1] - o[-2][1])
                                  - (o[-1][1] - o[-2][1]) * (p[0] - o[-2][0])) <= 0:
                o.pop()
            o.append(p)
        return o[:-1]
    return half(P) + half(P[::-1])


def shallow(rng):
    """A hull with vertices that stick out of an edge by very little."""
    if rng.random() < .5:                    # contact points between two others a little inside the ellipse
        out, m, t0, a, s = [], rng.choice([3, 3, 4, 5, 6]), rng.uniform(0, 6), rng.uniform(.3, 1), rng.choice([1, .1, 10])
        al = rng.uniform(0, 3.2)
        for i in range(m):
            t, d = t0 + 2 * math.pi * i / m + rng.uniform(-.3, .3), 10 ** rng.uniform(-3, -1.2)
            out.append((1, t))
            if rng.random() < .7:
                for e in (d, -d * rng.uniform(.7, 1)):
                    out.append((1 - rng.uniform(.2, .8) * e * e / 2, t + e))
        out = [(r * math.cos(t), r * a * math.sin(t)) for r, t in out]
        c, d = math.cos(al), math.sin(al)
        return {"kind": "shallow contact", "int": False,
                "pts": [[s * (c * x - d * y), s * (d * x + c * y)] for x, y in out]}
    ps = gen(rng, kind=rng.choice(["few", "generic", "gauss", "polygon", "parallelogram", "rim", "edges"]))
    H, out = hull(ps["pts"]), [list(p) for p in ps["pts"]]
    for _ in range(rng.choice([1, 1, 2, 3])):
        i = rng.randrange(len(H))
        a, b = H[i], H[(i + 1) % len(H)]
        t, h = rng.uniform(.2, .8), 10 ** rng.uniform(-6, -2.5)
        out.append([a[0] + t * (b[0] - a[0]) + h * (b[1] - a[1]), a[1] + t * (b[1] - a[1]) - h * (b[0] - a[0])])
    return {"kind": "shallow " + ps["kind"], "pts": out, "int": False}


def near(rng, ps, eps):
    """The same set with points of it repeated up to a small perturbation (relative size eps)."""
    P = ps["pts"]
    size = max(max(abs(p[0] - q[0]), abs(p[1] - q[1])) for p in P for q in P)
    out = list(P)
    for _ in range(rng.choice([1, 2, 3, 5])):
        p, t, r = rng.choice(P), rng.uniform(0, 6.3), eps * size * rng.uniform(.5, 1)
        out.append([p[0] + r * math.cos(t), p[1] + r * math.sin(t)])
    return {"kind": "near " + ps["kind"], "pts": out, "int": False}


def line(rng):
    """Points on one line (no ellipse)."""
    n = rng.choice([1, 1, 2, 3, 4, 7, 20])
    d = rng.choice([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [3.0, -2.0], [2.0, 1.0], [.1, .3], [.7, -.2], [1e-3, 1 / 3]])
    o = [float(rng.randint(-3, 3)), float(rng.randint(-3, 3))]
    ts = [rng.choice([rng.randint(-4, 4), rng.randint(-16, 16) / 8]) for _ in range(n)]
    s = rng.choice([1.0, 1.0, 1.0, 10.0 ** rng.randint(-8, 12)])
    return {"kind": "line", "pts": [[s * (o[0] + t * d[0]), s * (o[1] + t * d[1])] for t in ts], "int": False}


FORMS = ["float", "float", "readonly", "fortran", "strided", "reversed"]


def array(ps, rng=None, form="float", repeat=()):
    """The array handed to the library: rows in the order of 'repeat' (indices, repetitions allowed)."""
    rows = [ps["pts"][i] for i in repeat] if len(repeat) else ps["pts"]
    a = np.array(rows, dtype=int if ps["int"] else float).reshape((-1, 2))
    if form == "fortran":
        a = np.asfortranarray(a)
    elif form == "strided":
        b = np.full((2 * len(a) + 1, 5), 77, dtype=a.dtype)
        b[0:2 * len(a):2, 1:4:2] = a
        a = b[0:2 * len(a):2, 1:4:2]
    elif form == "reversed":
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif form == "readonly":
        a.setflags(write=False)
    return a


# ------------------------------------------------------------------ oracle
def mvee(P, *args):
    """The smallest enclosing ellipse; of many points, that of their hull."""
    return mvee_([list(p) for p in hull(P)] if len(P) > 200 else P, *args)


def mvee_(P, eps=1e-10, limit=20000):
    """Minimum area enclosing ellipse by the dual (optimal design) with away steps.

    Returns (area lower bound, weights u on distinct points, points). For every u in the simplex,
    2 pi sqrt(det cov_u) is a lower bound of the area of any ellipse that contains the points.
    """
    Q = [tuple(map(float, p)) for p in dict.fromkeys(tuple(map(float, p)) for p in P)]
    n = len(Q)
    # normalise (the problem is affine invariant)
    mx, my = sum(q[0] for q in Q) / n, sum(q[1] for q in Q) / n
    sxx = sum((q[0] - mx) ** 2 for q in Q) / n
    syy = sum((q[1] - my) ** 2 for q in Q) / n
    sxy = sum((q[0] - mx) * (q[1] - my) for q in Q) / n
    l11 = math.sqrt(sxx)
    l21 = sxy / l11
    l22 = math.sqrt(syy - l21 * l21)
    Y = []
    for q in Q:
        y1 = (q[0] - mx) / l11
        y2 = ((q[1] - my) - l21 * y1) / l22
        Y.append((y1, y2))
    u = [1.0 / n] * n
    best = None
    for it in range(limit):
        cx = sum(u[i] * Y[i][0] for i in range(n))
        cy = sum(u[i] * Y[i][1] for i in range(n))
        a = sum(u[i] * (Y[i][0] - cx) ** 2 for i in range(n))
        b = sum(u[i] * (Y[i][0] - cx) * (Y[i][1] - cy) for i in range(n))
        c = sum(u[i] * (Y[i][1] - cy) ** 2 for i in range(n))
        det = a * c - b * b
        if best is None or det > best[0]:
            best = (det, cx, cy, a, b, c)
        # g_i = q' X^-1 q = 1 + (y-c)' S^-1 (y-c)
        hi, lo, ih, il = -1.0, 1e300, -1, -1
        for i in range(n):
            dx, dy = Y[i][0] - cx, Y[i][1] - cy
            g = 1.0 + (c * dx * dx - 2 * b * dx * dy + a * dy * dy) / det
            if g > hi:
                hi, ih = g, i
            if u[i] > 1e-14 and g < lo:
                lo, il = g, i
        if hi - 3.0 < 3 * eps and 3.0 - lo < 3 * eps:
            break
        if hi - 3.0 >= 3.0 - lo:
            step = (hi - 3.0) / (3.0 * (hi - 1.0))
            for i in range(n):
                u[i] *= 1 - step
            u[ih] += step
        else:
            step = (3.0 - lo) / (3.0 * (lo - 1.0)) if lo > 1.0 + 1e-12 else 1e300
            step = min(step, u[il] / (1 - u[il]) if u[il] < 1 else 0.0)
            for i in range(n):
                u[i] *= 1 + step
            u[il] -= step
            if u[il] < 1e-15:
                u[il] = 0.0
        if it % 50 == 49:
            s = sum(u)
            u = [x / s for x in u]
    det, cx, cy, a, b, c = best
    scale = l11 * l22

    def level(pts):
        out = []
        for x, y in pts:
            y1 = (x - mx) / l11
            y2 = ((y - my) - l21 * y1) / l22
            dx, dy = y1 - cx, y2 - cy
            out.append((c * dx * dx - 2 * b * dx * dy + a * dy * dy) / det / 2)
        return out
    return {"area": 2 * math.pi * math.sqrt(det) * scale, "gap": hi - 3.0, "iterations": it,
            "center": (mx + l11 * cx, my + l21 * cx + l22 * cy), "level": level}


def shape(e):
    """(center, S) of an Ellipse object from its public parameters."""
    al = float(e.alpha) * math.pi / 180 if e.degrees else float(e.alpha)
    c, s = math.cos(al), math.sin(al)
    A, B = 1 / float(e.rmajor) ** 2, 1 / float(e.rminor) ** 2
    return (float(e.center[0]), float(e.center[1])), (A * c * c + B * s * s, (A - B) * c * s, A * s * s + B * c * c)


def levels(e, P):
    """(p-c)'S(p-c) for every point (<= 1 inside)."""
    (cx, cy), (a, b, c) = shape(e)
    return [a * (x - cx) ** 2 + 2 * b * (x - cx) * (y - cy) + c * (y - cy) ** 2 for x, y in P]


def gap(e1, e2):
    """How much two ellipses differ, relative to their size and shape (affine invariant)."""
    (x1, y1), (a1, b1, c1) = shape(e1)
    (x2, y2), (a2, b2, c2) = shape(e2)
    # Cholesky of S1 = L L'; compare L^-1 S2 L^-T with the identity
    l11 = math.sqrt(a1)
    l21 = b1 / l11
    l22 = math.sqrt(c1 - l21 * l21)
    m11 = a2 / (l11 * l11)
    m12 = (b2 / l11 - a2 * l21 / (l11 * l11)) / l22
    m22 = (c2 - 2 * l21 * b2 / l11 + l21 * l21 * a2 / (l11 * l11)) / (l22 * l22)
    dx, dy = x2 - x1, y2 - y1
    return max(abs(m11 - 1), abs(m12), abs(m22 - 1),
               math.sqrt(a1 * dx * dx + 2 * b1 * dx * dy + c1 * dy * dy))
