"""Pivot orders: what the random source can answer to the enclosing-ellipse search."""
import math

import numpy as np

from .engine import take_rng
from .randsrc import Source

STYLES = ["iid", "iid", "given", "reverse", "inside", "outside", "x", "-x", "angle", "mixed", "mixed", "contact last",
          "contact first", "low", "high", "stuck", "alternate", "corner", "lexicographic"]
SOURCE = {"low", "high", "stuck", "alternate", "corner"}


class Pivots(Source):
    """Answers permutation / shuffle / choice / randint by a style; everything else by a random source.

    ref: function(points) -> level of every point in the reference ellipse (contact points have 1).
    """

    def __init__(self, seed, style, ref=None):
        Source.__init__(self, seed, style if style in SOURCE else "iid")
        self.style, self.ref = style, ref
        self.orders = []                     # what was answered, for the coverage measure

    def ordinary(self):
        return self.mode == "iid" or self.n > 400

    def order(self, n, rows=None):
        """A permutation of range(n); rows: the coordinates, when the caller permutes points."""
        self.n += 1
        rs, s = self.rs, self.style
        if s == "mixed":
            s = STYLES[rs.randint(2, len(STYLES))]
            if s == "mixed":
                s = "iid"
        if self.n > 2000:
            s = "iid"
        pts = None
        if rows is not None:
            try:
                a = np.asarray(rows, dtype=float)
                if a.ndim == 2 and a.shape[1] == 2:
                    pts = a
            except (TypeError, ValueError):
                pass
        if s == "given":
            p = np.arange(n)
        elif s in ("reverse", "high"):
            p = np.arange(n)[::-1]
        elif s == "low":
            p = np.roll(np.arange(n), -1)
        elif s == "lexicographic" and n <= 8:
            p = np.array(nth(n, rs.randint(math.factorial(n))))
        elif pts is not None and n and s in ("inside", "outside", "x", "-x", "angle", "contact last", "contact first"):
            c = pts.mean(axis=0)
            if s in ("inside", "outside"):
                key = np.hypot(pts[:, 0] - c[0], pts[:, 1] - c[1])
            elif s in ("x", "-x"):
                key = pts[:, 0]
            elif s == "angle":
                key = np.arctan2(pts[:, 1] - c[1], pts[:, 0] - c[0])
            else:
                key = np.array(self.ref(pts.tolist())) if self.ref else pts[:, 1]
            p = np.argsort(key, kind="stable")
            if s in ("outside", "-x", "contact first"):
                p = p[::-1]
        else:
            p = rs.permutation(n)
        self.special += s != "iid"
        if len(self.orders) < 40:
            self.orders.append(tuple(int(i) for i in p[:12]))
        return p

    def f_permutation(self, x):
        if np.ndim(x) == 0:
            return self.order(int(x))
        a = np.asarray(x)
        return np.array(a[self.order(len(a), a)])

    def f_shuffle(self, x):
        if isinstance(x, np.ndarray):
            x[...] = x[self.order(len(x), x)]
        else:
            x[:] = [x[i] for i in self.order(len(x), x)]

    def f_choice(self, a, size=None, replace=True, p=None):
        if np.ndim(a) > 1:
            raise ValueError("a must be 1-dimensional")
        n = int(a) if np.ndim(a) == 0 else len(a)
        if n == 0:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        rows = None if np.ndim(a) == 0 else a
        if size is None:
            i = int(self.order(n, rows)[0])
            return i if rows is None else np.asarray(a)[i]
        k = int(np.prod(size))
        if replace:
            idx = np.array([self.order(n, rows)[0] for _ in range(k)], dtype=int)
        else:
            idx = self.order(n, rows)[:k]
        idx = idx.reshape(size)
        return idx if rows is None else np.asarray(a)[idx]


def nth(n, k):
    left, out = list(range(n)), []
    for i in range(n, 0, -1):
        k, r = divmod(k, i)
        out.append(left.pop(r))
    return out
