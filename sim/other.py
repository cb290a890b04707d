"""A helper process that restores saved objects and answers calls on them: another process, with
another hash seed, that shares nothing with the one that saved them but the saved bytes."""
import os
import pickle
import struct
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def restore(world, data):
    """Loads saved objects in a world (under the simulator)."""
    from . import core
    world.activate()
    return core.call(lambda: pickle.loads(data))


def answer(world, scene, objs, ops, seed, limits):
    from . import catalog, core
    env = catalog.Env(world, scene, [])
    env.objs = objs
    return [core.call(env.bind(op), seed, limit=lim) for op, lim in zip(ops, limits)]


class Other:
    """The parent's end."""

    def __init__(self):
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = "90210"
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen([sys.executable, "--jit", "threshold=5000,function_threshold=8000", "-m",
                                   "sim.other"], cwd=VERIF, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def ask(self, *request):
        b = pickle.dumps(request)
        self.p.stdin.write(struct.pack("<Q", len(b)) + b)
        self.p.stdin.flush()
        n = struct.unpack("<Q", self.p.stdout.read(8))[0]
        return pickle.loads(self.p.stdout.read(n))


def main():
    from . import core, engine, instrument
    from .canon import canon
    out = sys.stdout.buffer
    sys.stdout = sys.stderr
    core.quiet()
    engine.setup()
    while True:
        head = sys.stdin.buffer.read(8)
        if len(head) < 8:
            os._exit(0)
        data, scene, ops, seed, limits = pickle.loads(sys.stdin.buffer.read(struct.unpack("<Q", head)[0]))
        engine.reseed_harness()
        w = instrument.World()
        d = restore(w, data)
        if d.out[0] != "return":
            r = ("fail", d.out)
        else:
            shown = {i: canon(o) for i, o in d.value.items()}
            r = ("ok", shown, [(x.out, x.text) for x in answer(w, scene, d.value, ops, seed, limits)])
        b = pickle.dumps(r)
        out.write(struct.pack("<Q", len(b)) + b)
        out.flush()


if __name__ == "__main__":
    main()
