"""Circles, ellipses and triangles as plain numbers, with membership decided independently of the library."""
import math

import numpy as np


def gen(rng, cls=None, extreme=True):
    cls = cls or rng.choice(["Circle", "Ellipse", "Triangle"])
    s = 1.0
    if extreme and rng.random() < .2:
        s = 10.0 ** rng.randint(-4, 5)
    c = [rng.choice([0.0, 1.0, -2.5, 7.25]), rng.choice([0.0, -1.0, 3.5])]
    if rng.random() < .4:
        c = [rng.uniform(-10, 10), rng.uniform(-10, 10)]
    if extreme and rng.random() < .1:
        c = [x * 100 for x in c]
    c = [x * s for x in c]
    kind = rng.choice("tal")
    if cls == "Circle":
        return {"cls": cls, "args": [["p", c, kind], ["n", rng.choice([1, 0.5, 2.0, 3.7]) * s]], "kw": {}}
    if cls == "Ellipse":
        d = rng.random() < .5
        b = rng.choice([0.3, 1.0, 1.5])
        a = b * rng.choice([1.0, 1.2, 2.0, 5.0, 20.0, 1.003, 1.05])
        al = rng.choice([0.0, 30.0, 45.0, 90.0, 120.0, 210.0, -30.0, 361.0])
        return {"cls": cls, "args": [["p", c, kind], ["n", a * s], ["n", b * s],
                                     ["n", al if d else math.radians(al)]], "kw": {"degrees": ["b", d]}}
    k = rng.random()
    if k < .2:
        T = [[0., 0.], [4., 0.], [0., 3.]]
    elif k < .3:
        T = [[0., 0.], [1., 0.], [.5, math.sqrt(.75)]]
    elif k < .4:
        T = [[0., 0.], [10., 0.], [9.5, .2]]
    elif k < .55:                             # nearly, not exactly, equilateral or isosceles
        d = rng.choice([.02, .1, .25, .25])
        if rng.random() < .7:
            T = [[0., 0.], [1. + rng.uniform(-d, d), 0.], [.5 + rng.uniform(-d, d), .87 + rng.uniform(-d, d)]]
        else:
            T = [[-1., 0.], [1., 0.], [rng.uniform(-d, d), rng.choice([.3, 3.])]]
    else:
        while True:
            T = [[rng.uniform(-3, 3), rng.uniform(-3, 3)] for _ in range(3)]
            if abs(cross(T[0], T[1], T[2])) > .5:
                break
    rng.shuffle(T)
    return {"cls": "Triangle", "args": [["p", [c[0] + s * p[0], c[1] + s * p[1]], rng.choice("tal")] for p in T],
            "kw": {}}


def cross(A, B, C):
    return (B[0] - A[0]) * (C[1] - A[1]) - (B[1] - A[1]) * (C[0] - A[0])


def size(spec):
    a = spec["args"]
    if spec["cls"] == "Circle":
        return float(a[1][1])
    if spec["cls"] == "Ellipse":
        return float(min(a[1][1], a[2][1]))
    P = [x[1] for x in a]
    return max(math.hypot(P[i][0] - P[j][0], P[i][1] - P[j][1]) for i in range(3) for j in range(i))


def far(spec):
    return max(abs(float(v)) for x in spec["args"] if x[0] == "p" for v in x[1])


def angle(spec):
    al = float(spec["args"][3][1])
    return math.radians(al) if spec["kw"]["degrees"][1] else al


def local(spec, P):
    """Points in the frame where the figure is the unit disc (circle, ellipse)."""
    a = spec["args"]
    Q = np.asarray(P, dtype=float) - np.array(a[0][1], dtype=float)
    if spec["cls"] == "Circle":
        return Q / float(a[1][1])
    al = angle(spec)
    c, s = math.cos(al), math.sin(al)
    x, y = Q[:, 0] * c + Q[:, 1] * s, -Q[:, 0] * s + Q[:, 1] * c
    return np.column_stack((x / float(a[1][1]), y / float(a[2][1])))


def edge_distance(P, A, B):
    A, B = np.array(A, dtype=float), np.array(B, dtype=float)
    d = B - A
    t = np.clip(((P - A) @ d) / (d @ d), 0.0, 1.0)
    return np.linalg.norm(P - (A + t[:, None] * d), axis=1)


def excess(spec, where, P):
    """How far each point is outside the requested set, relative to the figure (0: member)."""
    P = np.asarray(P, dtype=float)
    if spec["cls"] != "Triangle":
        r = np.linalg.norm(local(spec, P), axis=1)
        return np.maximum(0.0, r - 1.0) if where == "in" else np.abs(r - 1.0)
    T = [x[1] for x in spec["args"]]
    h = size(spec)
    edge = np.minimum(np.minimum(edge_distance(P, T[0], T[1]), edge_distance(P, T[1], T[2])),
                      edge_distance(P, T[2], T[0])) / h
    if where == "on":
        return edge
    sgn = 1.0 if cross(*T) > 0 else -1.0
    inside = np.ones(len(P), dtype=bool)
    for i in range(3):
        A, B = T[i], T[(i + 1) % 3]
        d = (B[0] - A[0]) * (P[:, 1] - A[1]) - (B[1] - A[1]) * (P[:, 0] - A[0])
        inside &= sgn * d >= 0
    return np.where(inside, 0.0, edge)


def tolerance(spec):
    s = size(spec)
    if spec["cls"] == "Ellipse":
        s = s * min(1.0, (float(min(spec["args"][1][1], spec["args"][2][1])) /
                          float(max(spec["args"][1][1], spec["args"][2][1]))))
        # the library goes through the implicit equation, whose coefficients grow like far**2
        return 1e-7 + 2e-14 * (1.0 + far(spec) / s) ** 2
    return 1e-7 + 1e-13 * far(spec) / s
