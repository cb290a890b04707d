"""Scenario generation shared by the checks."""
import copy

from . import catalog
from .catalog import OP_NAMES, OP_NAMES_DET, Gen

LONG = ["Ellipse.LownerJohnEllipse", "Ellipse.from_five_points", "Triangle.malfatti_circles", "SteinerChain",
        "Inversion.from_swapping_two_circles", "Mobius.gpower", "mid_circles", "Affine.transform_ellipse"]


def focus(rng, k, avoid_random=False, names=None, n_objects=None, extreme=.02, neutral=.05):
    """A scene and one call of the k-th operation (all operations are visited in turn)."""
    names = names or (OP_NAMES_DET if avoid_random else OP_NAMES)
    fn = names[k % len(names)]
    if rng.random() < .05:                   # long calls have more places to be hit
        fn = rng.choice([n for n in LONG if n in names] or [fn])
    cls = fn.split(".")[0]
    g = Gen(rng, n_objects or rng.randint(3, 6))
    if "." in fn and cls in catalog.SCHEMA and rng.random() < 0.8:
        g.add(cls)
    op = g.op(fn)
    if rng.random() < extreme:
        make_extreme(g, op, rng)
    elif rng.random() < neutral:             # the receiver or another object of the call is an identity, a unit, ...
        ids = catalog.refs(op)
        if ids:
            i = ids[0] if rng.random() < .7 else rng.choice(ids)
            if g.pool[i] is not None:
                g.neutral(g.pool[i]["cls"], g.pool[i])
    return g, op


FACTORS = [1e100, 1e160, 1e300, 1e-100, 1e-160, 1e-300, 1e8, 1e-8]


def make_extreme(g, op, rng):
    """One number of the call, or of an object it involves, becomes very large, very small, infinite or no number."""
    lists = []

    def visit(a):
        if a[0] == "n" and isinstance(a[1], float):
            lists.append((a, 1))
        elif a[0] in ("p", "v", "va"):
            lists.extend((a[1], i) for i in range(len(a[1])))
        elif a[0] == "m":
            lists.extend((r, i) for r in a[1] for i in range(len(r)))
        elif a[0] == "mc":
            lists.extend((z, i) for r in a[1] for z in r if z for i in range(2))
        elif a[0] == "o":
            todo.append(a[1])
    todo = [op["self"]] if op.get("self") is not None else []
    for a in op["args"]:
        visit(a)
    done = set()
    while todo:
        i = todo.pop()
        if i not in done and g.pool[i] is not None:
            done.add(i)
            for a in g.pool[i]["args"]:
                visit(a)
    if not lists:
        return
    where = [rng.choice(lists) for _ in range(rng.choice([1, 1, 2, 6]))]
    f = rng.choice(FACTORS)
    for a, i in where:
        a[i] = a[i] * f if rng.random() < .9 else rng.choice([float("inf"), float("nan"), -0.0])


def variant(g, op, rng):
    """A call close to another one: other arguments, other receiver, or other keyword values."""
    fresh = g.op(op["fn"])
    new = copy.deepcopy(op)
    choices = []
    if op.get("self") is not None:
        choices.append("self")
    choices += list(range(min(len(op["args"]), len(fresh["args"]))))
    choices += list(set(op["kw"]) | set(fresh["kw"]))
    if not choices:
        return fresh
    c = rng.choice(sorted(choices, key=str))
    if c == "self":
        new["self"] = fresh.get("self", new["self"])
    elif isinstance(c, int):
        new["args"][c] = fresh["args"][c]
    elif c in fresh["kw"]:
        new["kw"][c] = fresh["kw"][c]
    else:
        del new["kw"][c]
    return new


def related(g, op, rng, avoid_random=False):
    """Another call likely to touch the same objects or the same code."""
    r = rng.random()
    if r < 0.45:
        return variant(g, op, rng)
    if r < 0.6:
        return g.op(op["fn"])
    if r < 0.85:
        used = catalog.refs(op)
        if used:
            i = rng.choice(used)
            cls = g.pool[i]["cls"]
            names = [n for n in (OP_NAMES_DET if avoid_random else OP_NAMES) if n.startswith(cls + ".")]
            if names:
                o = g.op(rng.choice(names))
                if o.get("self") is not None:
                    o["self"] = i
                return o
    return g.op(avoid_random=avoid_random)
