"""The surroundings of a call: process-wide and thread-wide settings, the clock, the environment."""
import decimal
import gc
import logging
import os
import random
import shutil
import sys
import tempfile
import time
import types
import warnings

import numpy as np

from .engine import E, SIMOUT
from .instrument import World

ERR = ["divide", "over", "under", "invalid"]
VARS = ["LANG", "LC_ALL", "TZ", "COLUMNS", "TERM", "NO_COLOR", "HOME", "USER", "TMPDIR", "DEBUG", "CI", "PYTHONOPTIMIZE",
        "PYTHONUNBUFFERED", "OMP_NUM_THREADS", "MPLBACKEND", "PWD"]
AXES = ["errors", "print", "warnings", "decimal", "environ", "cwd", "clock", "python random", "recursion limit", "gc",
        "argv", "terminal", "switch interval", "buffer", "optimize", "thread", "trace", "hooks", "any variable",
        "identity", "flags", "depth", "logging"]
STATIC = ["optimize"]                 # cannot change once the package is imported
OUTSIDE = ["thread", "trace", "depth"]         # belong to a whole call
ANY = [None, "", "0", "1", "2", "C", "true", "false", "yes", "no", "debug", "1e-3", "0.5", "12", "auto", "x" * 50]


def active():
    """Whether code of the package is running (or being imported)."""
    return E.cur is not None or World.importing


# ------------------------------------------------------------------ variables of the environment nobody thought of
class Anything:
    """Answers every lookup of an environment variable made by the package."""
    seed = None
    asked = 0


def _any_variable():
    real = os._Environ.__getitem__

    def getitem(self, key):
        if Anything.seed is not None and active() and isinstance(key, str):
            Anything.asked += 1
            v = random.Random("%s/%s" % (Anything.seed, key)).choice(ANY)
            if v is None:
                raise KeyError(key)
            return v
        return real(self, key)
    os._Environ.__getitem__ = getitem
    real_contains = os._Environ.__contains__

    def contains(self, key):
        if Anything.seed is not None and active() and isinstance(key, str):
            try:
                getitem(self, key)
                return True
            except KeyError:
                return False
        return real_contains(self, key)
    os._Environ.__contains__ = contains


# ------------------------------------------------------------------ who and where the process is
class Identity:
    seed = None


def _identity():
    import getpass
    import platform
    import socket

    def sim(mod, name, values):
        real = getattr(mod, name)

        def f(*a, **k):
            if Identity.seed is not None and active():
                return random.Random("%s/%s" % (Identity.seed, name)).choice(values)
            return real(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    sim(os, "getpid", [1, 2, 77, 4194303])
    sim(os, "getppid", [0, 1, 77])
    sim(os, "cpu_count", [None, 1, 2, 128])
    sim(os, "getuid", [0, 1000, 65534])
    sim(os, "getlogin", ["root", "nobody", "ci"])
    sim(getpass, "getuser", ["root", "nobody", "ci"])
    sim(socket, "gethostname", ["localhost", "ci-runner", ""])
    sim(platform, "system", ["Linux", "Windows", "Darwin", "Java", ""])
    sim(platform, "node", ["localhost", "ci-runner", ""])
    sim(platform, "machine", ["x86_64", "aarch64", "i686", ""])
    sim(platform, "python_implementation", ["CPython", "PyPy", "Jython"])


# ------------------------------------------------------------------ the simulated clock
class Clock:
    """What the time functions answer to the code under test."""

    def __init__(self):
        self.set({"base": 1.7e9, "tick": 1e-4})

    def set(self, c):
        self.now, self.tick, self.reads = float(c["base"]), float(c["tick"]), 0

    def read(self):
        self.reads += 1
        self.now += self.tick
        return self.now


CLOCK = Clock()
_time = {}


def install():
    """Puts the clock behind the time module (only for the code under test)."""
    if _time:
        return
    _any_variable()
    _identity()

    def sim(name, conv):
        real = _time[name] = getattr(time, name)

        def f(*a):
            return conv(CLOCK.read()) if active() else real(*a)
        f.__name__ = name
        return f
    for n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        if hasattr(time, n):
            setattr(time, n, sim(n, float))
    for n in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        if hasattr(time, n):
            setattr(time, n, sim(n, lambda t: int(t * 1e9)))
    for n in ("localtime", "gmtime", "strftime", "ctime", "asctime"):
        def g(*a, real=getattr(time, n), name=n):
            if active() and len(a) < (2 if name == "strftime" else 1):
                t = time.gmtime(CLOCK.read())
                if name in ("ctime",):
                    return real(CLOCK.now)
                return real(*a, t) if name in ("strftime", "asctime") else t
            return real(*a)
        _time[n] = getattr(time, n)
        setattr(time, n, g)

    def sleep(s):
        if not active():
            return _time["sleep"](s)
        CLOCK.now += s
    _time["sleep"] = time.sleep
    time.sleep = sleep


# ------------------------------------------------------------------ configurations
def gen(rng, axes=None, n=None):
    axes = axes or AXES
    n = n or rng.choice([1, 1, 2, 3, 6])
    return {a: value(rng, a) for a in sorted(rng.sample(axes, min(n, len(axes))))}


def value(rng, a):
    if a == "errors":
        return {e: rng.choice(["ignore", "warn", "call"]) for e in ERR}
    if a == "print":
        return {"precision": rng.choice([0, 1, 2, 3, 5, 17]), "suppress": rng.random() < .5, "linewidth": rng.choice([10, 40, 200]),
                "threshold": rng.choice([0, 1, 3, 1000]), "edgeitems": rng.choice([0, 1, 3]), "sign": rng.choice(["-", "+", " "]),
                "floatmode": rng.choice(["fixed", "unique", "maxprec", "maxprec_equal"]),
                "nanstr": rng.choice(["nan", "NA"]), "infstr": rng.choice(["inf", "oo"]),
                "legacy": rng.choice([False, False, "1.13", "1.21"])}
    if a == "warnings":
        return rng.choice(["ignore", "always", "default", "once", "module"])
    if a == "decimal":
        return {"prec": rng.choice([1, 2, 3, 6, 28, 100]), "rounding": rng.choice(
            ["ROUND_DOWN", "ROUND_UP", "ROUND_FLOOR", "ROUND_CEILING", "ROUND_HALF_EVEN"])}
    if a == "environ":
        return {v: rng.choice(["", "0", "1", "C", "tr_TR.UTF-8", "de_DE", "x" * 50]) for v in rng.sample(VARS, rng.randint(1, 5))}
    if a == "cwd":
        return rng.choice(["a", "b"])
    if a == "clock":
        return {"base": rng.choice([0.0, 1.0, 1e9, 1.7e9, 2 ** 31 - .5, 4e9, 1.7e9 + rng.uniform(0, 1e6)]),
                "tick": rng.choice([0.0, 1e-6, 1e-3, 1.0, 3600.0, -1.0])}
    if a == "python random":
        return rng.randrange(1 << 30)
    if a == "recursion limit":
        return rng.choice([900, 2000, 10000, 100000])
    if a == "gc":
        return rng.choice(["off", "off", "collect"])
    if a == "argv":
        return rng.choice([[""], ["-c", "-O", "--debug"], ["pytest", "-x"]])
    if a == "terminal":
        return True
    if a == "switch interval":
        return rng.choice([1e-6, 1.0])
    if a == "buffer":
        return rng.choice([160, 16384])
    if a == "optimize":
        return rng.choice([1, 2])
    if a in ("any variable", "identity"):
        return rng.randrange(1 << 30)
    if a == "flags":
        return {f: rng.choice([0, 1]) for f in rng.sample(["dev_mode", "debug", "interactive", "verbose", "quiet", "isolated",
                                                           "optimize", "utf8_mode", "bytes_warning"], 3)}
    if a == "depth":
        return rng.choice([10, 20, 60])
    if a == "logging":
        return rng.choice([1, 10, 50])
    if a == "hooks":
        return rng.choice(["display", "import"])
    return True


class Settings:
    """Applies configurations and puts everything back."""

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix="sim-ambient-")
        for d in "ab":
            os.mkdir(os.path.join(self.scratch, d))

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def save(self):
        self.base = {"err": np.geterr(), "call": np.geterrcall(), "print": np.get_printoptions(),
                     "filters": list(warnings.filters), "showwarning": warnings.showwarning,
                     "decimal": decimal.getcontext().copy(), "environ": dict(os.environ), "cwd": os.getcwd(),
                     "random": random.getstate(), "reclimit": sys.getrecursionlimit(), "gc": gc.isenabled(),
                     "argv": list(sys.argv), "switch": sys.getswitchinterval(), "buf": np.getbufsize(),
                     "displayhook": sys.displayhook, "flags": sys.flags, "level": logging.getLogger().level}
        warnings.showwarning = lambda *a, **k: None

    def restore(self):
        b = self.base
        np.seterr(**b["err"])
        np.seterrcall(b["call"])
        np.set_printoptions(**b["print"])
        warnings.filters[:] = b["filters"]
        warnings._filters_mutated()
        warnings.showwarning = b["showwarning"]
        decimal.setcontext(b["decimal"].copy())
        if dict(os.environ) != b["environ"]:
            os.environ.clear()
            os.environ.update(b["environ"])
        os.chdir(b["cwd"])
        random.setstate(b["random"])
        sys.setrecursionlimit(b["reclimit"])
        (gc.enable if b["gc"] else gc.disable)()
        sys.argv[:] = b["argv"]
        sys.setswitchinterval(b["switch"])
        np.setbufsize(b["buf"])
        sys.displayhook = b["displayhook"]
        sys.flags = b["flags"]
        logging.getLogger().setLevel(b["level"])
        Anything.seed = Identity.seed = None
        SIMOUT.terminal = False
        CLOCK.set({"base": 1.7e9, "tick": 1e-4})

    def apply(self, cfg):
        for a, v in cfg.items():
            if a == "errors":
                np.seterrcall(_errcall)
                np.seterr(**v)
            elif a == "print":
                np.set_printoptions(**v)
            elif a == "warnings":
                warnings.resetwarnings()
                warnings.simplefilter(v)
            elif a == "decimal":
                c = decimal.getcontext()
                c.prec, c.rounding = v["prec"], v["rounding"]
            elif a == "environ":
                os.environ.update(v)
            elif a == "cwd":
                os.chdir(os.path.join(self.scratch, v))
            elif a == "clock":
                CLOCK.set(v)
            elif a == "python random":
                random.seed(v)
            elif a == "recursion limit":
                sys.setrecursionlimit(v)
            elif a == "gc":
                if v == "collect":
                    gc.collect()
                else:
                    gc.disable()
            elif a == "argv":
                sys.argv[:] = v
            elif a == "terminal":
                SIMOUT.terminal = True
            elif a == "switch interval":
                sys.setswitchinterval(v)
            elif a == "buffer":
                np.setbufsize(v)
            elif a == "any variable":
                Anything.seed = v
            elif a == "identity":
                Identity.seed = v
            elif a == "flags":
                sys.flags = types.SimpleNamespace(**dict({n: getattr(sys.flags, n) for n in dir(sys.flags) if n[0] != "_" and
                                                          n not in ("count", "index")}, **v))
            elif a == "logging":
                logging.getLogger().setLevel(v)
            elif a == "hooks":
                sys.displayhook = _display


def _errcall(kind, flag):
    return None


def _display(x):
    return None
