"""Plain comparable form of everything the library returns, and comparison up to rounding."""
import math
import numbers

import numpy as np

# the defining public attributes of each class (constructor parameters)
SCHEMA = {
    "Line": ["A", "B", "extendA", "extendB"],
    "Circle": ["center", "radius"],
    "Arc": ["center", "radius", "alpha1", "alpha2", "degrees"],
    "Ellipse": ["center", "rmajor", "rminor", "alpha", "degrees"],
    "Inversion": ["pole", "power"],
    "Triangle": ["A", "B", "C"],
    "Affine": ["A", "b"],
    "Mobius": ["M"],
    "Reflection": ["line"],
    "Projection": ["D", "Delta", "orthogonal"],
    "Rotation": ["center", "theta", "degrees"],
    "Shear": ["vertex", "vector", "ratio", "angle", "degrees"],
    "ScalingXY": ["center", "sx", "sy"],
    "Homothety": ["center", "scale"],
    "Scaling": ["center", "direction", "scale"],
}


def is_geo(x):
    return type(x).__module__.split(".")[0] == "planegeometry" and not isinstance(x, BaseException)


def canon(x, depth=0):
    if x is None or isinstance(x, (bool, np.bool_)):
        return ("c", None if x is None else bool(x))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("a", x.shape, tuple(canon(v, depth + 1) for v in x.ravel().tolist()))
        return ("a", x.shape, tuple(x.ravel().tolist()))
    if isinstance(x, complex) or isinstance(x, np.complexfloating):
        return ("z", complex(x))
    if isinstance(x, numbers.Number):
        try:
            return ("f", float(x))
        except OverflowError:
            return ("s", repr(x))
    if isinstance(x, str):
        return ("s", x)
    if isinstance(x, (list, tuple)):
        return ("l", tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, dict):
        return ("d", tuple((str(k), canon(v, depth + 1)) for k, v in x.items()))
    if is_geo(x) and depth < 8:
        name = type(x).__name__
        attrs = SCHEMA.get(name)
        if attrs is None:
            attrs = sorted(k for k in vars(x) if not k.startswith("_"))
        out = []
        for k in attrs:
            try:
                out.append((k, canon(getattr(x, k), depth + 1)))
            except AttributeError:
                out.append((k, ("missing",)))
        return ("o", name, tuple(out))
    return ("r", type(x).__name__)


def _feq(a, b, rel, abs_):
    if a == b:
        return True
    if a != a and b != b:
        return True
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return _feq(a.real, b.real, rel, abs_) and _feq(a.imag, b.imag, rel, abs_)
    try:
        return math.isclose(a, b, rel_tol=rel, abs_tol=abs_)
    except TypeError:
        return False


def same(a, b, rel=1e-9, abs_=1e-12):
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) \
                and not isinstance(a, bool) and not isinstance(b, bool):
            return _feq(a, b, rel, abs_)
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, (float, complex)):
        return _feq(a, b, rel, abs_)
    return a == b


def show(c, limit=300):
    s = repr(c)
    return s if len(s) <= limit else s[:limit] + "..."
