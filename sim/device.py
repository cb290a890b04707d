"""Simulated output devices: short writes, device errors, other encodings.

Stream: the standard text layer (io.TextIOWrapper over io.BufferedWriter, real code) over a simulated
raw file.  Direct: a text device of the application (a socket, a log window) that fails by itself.
"""
import errno
import io
import random

ERRNO = {"full": errno.ENOSPC, "pipe": errno.EPIPE, "io": errno.EIO, "quota": errno.EDQUOT, "reset": errno.ECONNRESET}


class SimDeviceError(Exception):
    """An application's device may raise anything."""


def make_error(kind):
    if kind in ERRNO:
        return OSError(ERRNO[kind], "simulated " + kind)
    return {"closed": lambda: ValueError("I/O operation on closed file."),
            "interrupt": lambda: KeyboardInterrupt("simulated in write"),
            "device": lambda: SimDeviceError("simulated"),
            "lookup": lambda: KeyError("simulated"),
            "zero": lambda: ZeroDivisionError("simulated"),
            "memory": lambda: MemoryError("simulated")}[kind]()


class Raw(io.RawIOBase):
    """A raw file that takes only part of what it is given and may start failing."""

    def __init__(self, dev):
        self.rng = random.Random(dev["seed"])
        self.chunk = dev["chunk"]
        self.fail = dev.get("fail")
        self.got = bytearray()
        self.raised = []
        self.short = 0
        self.dead = False

    def writable(self):
        return True

    def write(self, b):
        b = bytes(b)
        if self.dead or not b:
            return len(b)
        n = len(b)
        if self.chunk:
            n = max(1, min(n, self.rng.randint(1, self.chunk)))
        if self.fail is not None:
            room = self.fail["at"] - len(self.got)
            if room <= 0:
                e = make_error(self.fail["kind"])
                if self.fail.get("once"):
                    self.fail = None
                self.raised.append(e)
                raise e
            n = min(n, room)
        if n < len(b):
            self.short += 1
        self.got += b[:n]
        return n


class Stream:
    def __init__(self, dev):
        self.dev = dev
        self.raw = Raw(dev)
        self.text = io.TextIOWrapper(io.BufferedWriter(self.raw, dev["buf"]), encoding=dev["enc"], newline="\n",
                                     line_buffering=dev["line"], write_through=dev["through"])
        self.write = self.text.write
        self.flush = self.text.flush

    def __getattr__(self, name):
        return getattr(self.__dict__["text"], name)

    def finish(self):
        """The application flushes."""
        self.text.flush()

    def dispose(self):
        self.raw.dead = True
        try:
            self.text.close()
        except Exception:
            pass

    def received(self):
        return bytes(self.raw.got)

    def whole(self, text):
        return text.encode(self.dev["enc"])

    @property
    def raised(self):
        return self.raw.raised


class Direct:
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, dev):
        self.dev = dev
        self.fail = dev.get("fail")
        self.parts, self.n, self.raised, self.short = [], 0, [], 0
        self.chars = 0

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("write() argument must be str, not %s" % type(s).__name__)
        self.n += 1
        f = self.fail
        if f is not None:
            if f["at"] < self.chars + len(s) or (f.get("write") is not None and self.n > f["write"]):
                keep = max(0, min(len(s), f["at"] - self.chars)) if f["part"] else 0
                self.take(s[:keep])
                if f.get("once"):
                    self.fail = None
                e = make_error(f["kind"])
                self.raised.append(e)
                raise e
        self.take(s)
        return len(s)

    def take(self, s):
        if s:
            self.parts.append(s)
            self.chars += len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def flush(self):
        if self.dev.get("flush") and not self.raised:
            e = make_error(self.dev["flush"])
            self.raised.append(e)
            raise e

    def finish(self):
        pass

    def dispose(self):
        pass

    def received(self):
        return "".join(self.parts)

    def whole(self, text):
        return text


def make(dev):
    return Stream(dev) if dev["dev"] == "stream" else Direct(dev)


def gen(rng, length):
    """A device, healthy or not, for a text of about the given length."""
    at = rng.choice([0, 1, 2]) if rng.random() < .15 else rng.randrange(max(1, int(length * 1.15)))
    bad = rng.random() < .75
    if rng.random() < .5:
        d = {"dev": "stream", "seed": rng.randrange(1 << 30), "chunk": rng.choice([0, 1, 3, 8, 40]),
             "buf": rng.choice([1, 7, 16, 64, 8192]), "line": rng.random() < .4, "through": rng.random() < .4,
             "enc": rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "ascii", "utf-16-le"])}
        if bad:
            d["fail"] = {"at": at, "kind": rng.choice(["full", "pipe", "io", "quota", "reset", "interrupt"]),
                         "once": rng.random() < .4}
        return d
    d = {"dev": "direct"}
    if bad:
        d["fail"] = {"at": at, "part": rng.random() < .5, "once": rng.random() < .4,
                     "kind": rng.choice(["full", "pipe", "io", "closed", "interrupt", "device", "lookup", "zero", "memory"])}
        if rng.random() < .4:
            d["fail"]["write"] = rng.choice([0, 1, 2, 3, 5, 8, 13])
    elif rng.random() < .3:
        d["flush"] = rng.choice(["io", "pipe", "closed"])
    return d
