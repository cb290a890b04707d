"""How much a package keeps: everything reachable from its modules, and from objects in use."""
import atexit
import collections
import gc
import os
import sys
import threading
import types
import warnings
import weakref

import numpy as np

from .instrument import PKG

SKIP = {"__warningregistry__", "__builtins__", "__sim_s__", "__sim_v__", "__spec__", "__loader__", "__file__", "__cached__"}
ATOMS = (int, float, complex, bool, type(None), type(Ellipsis), type(NotImplemented), range, slice, np.dtype)


def ours(name):
    return isinstance(name, str) and (name == PKG or name.startswith(PKG + "."))


def size(roots):
    """Number of objects and elements reachable from the roots without leaving what belongs to the package."""
    seen, todo, n = set(), list(roots), 0
    keep = []
    while todo:
        x = todo.pop()
        if isinstance(x, ATOMS):
            continue
        i = id(x)
        if i in seen:
            continue
        seen.add(i)
        keep.append(x)
        n += 1
        if isinstance(x, (str, bytes, bytearray)):
            n += len(x) // 16
        elif isinstance(x, np.ndarray):
            n += x.nbytes // 8
            if x.base is not None:
                todo.append(x.base)
            if x.dtype.kind == "O":
                todo += list(x.flat)
        elif isinstance(x, dict):
            n += len(x)
            todo += [k for k in x if k not in SKIP] if not any(isinstance(k, weakref.ref) for k in x) else list(x)
            todo += [v for k, v in list(x.items()) if not (isinstance(k, str) and k in SKIP)]
            todo += attributes(x)
        elif isinstance(x, (list, tuple, set, frozenset, collections.deque)):
            n += len(x)
            todo += list(x)
            todo += attributes(x)
        elif isinstance(x, types.ModuleType):
            if ours(x.__name__):
                todo.append(vars(x))
        elif isinstance(x, type):
            if ours(x.__module__):
                todo += [v for k, v in vars(x).items() if k not in SKIP]
        elif isinstance(x, types.FunctionType):
            if ours(x.__module__) or (x.__closure__ and ours(getattr(x, "__module__", None))):
                todo += [x.__defaults__, x.__kwdefaults__, x.__dict__]
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, types.MethodType):
            todo += [x.__self__, x.__func__]
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [x.fget, x.fset, x.fdel]
        elif isinstance(x, weakref.ref):
            y = x()
            if y is not None:
                todo.append(y)
        elif isinstance(x, types.TracebackType):
            todo += [x.tb_next, x.tb_frame]
        elif isinstance(x, types.FrameType):
            if ours(x.f_globals.get("__name__")):
                todo += list(x.f_locals.values())
        elif isinstance(x, BaseException):
            todo += [x.args, x.__traceback__, x.__context__, x.__cause__] + attributes(x)
        elif isinstance(x, (types.BuiltinFunctionType, np.ufunc, types.CodeType)):
            pass
        else:
            todo += attributes(x)
            if hasattr(type(x), "__len__") and not hasattr(x, "__dict__"):
                try:
                    n += len(x)
                except Exception:
                    pass
    return n


def attributes(x):
    out = []
    d = getattr(x, "__dict__", None)
    if isinstance(d, dict):
        out.append(d)
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        for a in (s,) if isinstance(s, str) else s:
            if a not in ("__dict__", "__weakref__"):
                try:
                    out.append(getattr(x, a))
                except AttributeError:
                    pass
    return out


def of(world, objects):
    """(kept by the package itself, held by the objects in use)"""
    mods = size([vars(m) for m in world.modules.values()])
    return mods, size([getattr(o, "__dict__", {}) for o in objects] + list(objects))


def process():
    """Other things that can be used up."""
    return {"open files": len(os.listdir("/proc/self/fd")) if os.path.isdir("/proc/self/fd") else 0,
            "threads": threading.active_count(), "collector callbacks": len(gc.callbacks) if hasattr(gc, "callbacks") else 0,
            "warning filters": len(warnings.filters), "exit functions": atexit._ncallbacks() if hasattr(atexit, "_ncallbacks") else 0,
            "import hooks": len(sys.meta_path) + len(sys.path_hooks), "module search path": len(sys.path),
            "environment": len(os.environ),
            "noted warnings": len(warnings.onceregistry) + sum(
                len(vars(m).get("__warningregistry__") or ()) for m in list(sys.modules.values()) if m is not None
                and hasattr(m, "__dict__"))}
