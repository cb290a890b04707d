"""Counting cells and chi-square tests (two-sided: too uneven and too even are both wrong)."""
import math

import numpy as np

FINE1, FINE2 = 48, 12


def gammainc(a, x):
    """(P, Q) regularised incomplete gamma functions."""
    if x <= 0:
        return 0.0, 1.0
    lg = math.lgamma(a)
    if x < a + 1:
        s = t = 1.0 / a
        n = a
        for _ in range(20000):
            n += 1
            t *= x / n
            s += t
            if t < s * 1e-16:
                break
        p = s * math.exp(-x + a * math.log(x) - lg)
        return p, 1.0 - p
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 20000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if abs(d) < tiny else d
        c = b + an / c
        c = tiny if abs(c) < tiny else c
        d = 1 / d
        h *= d * c
        if abs(d * c - 1) < 1e-16:
            break
    q = math.exp(-x + a * math.log(x) - lg) * h
    return 1.0 - q, q


def chi2(cells, n):
    k = len(cells)
    e = n / k
    x = sum((c - e) ** 2 for c in cells) / e
    p, q = gammainc((k - 1) / 2.0, x / 2.0)
    return x, q, p                       # q: probability of being this uneven, p: of being this even


def coarse(cells, kind, least=8.0):
    """The partitions (neighbouring cells merged) in which enough is expected in each cell: many cells
    show sharp irregularities, few cells show small but wide ones."""
    n = sum(cells)
    if kind == 1:
        for b in (48, 24, 12, 8, 6, 4, 3, 2):
            if n / b >= least:
                w = FINE1 // b
                yield [sum(cells[i * w:(i + 1) * w]) for i in range(b)]
        return
    for b in (12, 6, 4, 3, 2):
        if n / (b * b) >= least:
            w = FINE2 // b
            out = [0] * (b * b)
            for i in range(FINE2):
                for j in range(FINE2):
                    out[(i // w) * b + j // w] += cells[i * FINE2 + j]
            yield out


class Tables:
    def __init__(self):
        self.t = {}

    def one(self, key, u):
        c = self.t.get(key)
        if c is None:
            c = self.t[key] = [0] * FINE1
        c[min(FINE1 - 1, int(u * FINE1))] += 1

    def two(self, key, u, v):
        c = self.t.get(key)
        if c is None:
            c = self.t[key] = [0] * (FINE2 * FINE2)
        c[min(FINE2 - 1, int(u * FINE2)) * FINE2 + min(FINE2 - 1, int(v * FINE2))] += 1

    def many(self, key, u, v=None):
        """The same for arrays of coordinates."""
        m = FINE1 if v is None else FINE2
        k = np.minimum(m - 1, (u * m).astype(int))
        if v is not None:
            k = k * m + np.minimum(m - 1, (v * m).astype(int))
        c = np.bincount(k, minlength=m if v is None else m * m).tolist()
        old = self.t.get(key)
        self.t[key] = c if old is None else [a + b for a, b in zip(old, c)]

    def score(self, key, excess, variance, n):
        """A sum that has mean 0 and the given variance when the law is right."""
        c = self.t.setdefault(key, [0.0, 0.0, 0])
        c[0] += excess
        c[1] += variance
        c[2] += n

    def merge(self, d):
        for k, c in d.items():
            old = self.t.get(k)
            self.t[k] = list(c) if old is None else [a + b for a, b in zip(old, c)]

    def test(self, key):
        cells = self.t[key]
        if len(cells) == 3:
            if cells[1] < 50:
                return None
            z = cells[0] / math.sqrt(cells[1])
            return {"points": cells[2], "cells": 2, "chi2": z * z, "uneven": math.erfc(abs(z) / math.sqrt(2)),
                    "even": 1.0, "counts": cells}
        n, worst = sum(cells), None
        for c in coarse(cells, 1 if len(cells) == FINE1 else 2):
            x, q, p = chi2(c, n)
            if len(c) < 6:
                p = 1.0                     # a few cells may well be even
            if worst is None or min(q, p) < min(worst["uneven"], worst["even"]):
                worst = {"points": n, "cells": len(c), "chi2": x, "uneven": q, "even": p, "counts": c}
        return worst

    def failures(self, alpha):
        out = []
        tested = 0
        for k in sorted(self.t):
            r = self.test(k)
            if r is None:
                continue
            tested += 1
            m = min(r["uneven"], r["even"])
            if m < alpha:
                out.append((m, k, r))
        out.sort(key=lambda x: (x[0], x[1]))
        return out, tested
