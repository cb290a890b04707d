"""Base class of all checks."""
from . import core


class Check:
    prop = "?"
    counts = {"quick": 100, "thorough": 1000}
    walls = {"quick": 420.0, "thorough": 780.0}     # safety only: the amount of work is a count
    setup = {}
    digests = False           # repeat every run in other processes and compare
    sample_from = 0
    rule = ""
    measure = ""
    real = []
    stubs = []
    assumptions = []

    def begin(self):
        pass

    def gen(self, rng, k):
        raise NotImplementedError

    def run(self, scn, st):
        raise NotImplementedError

    def freeze(self, scn):
        return scn

    def shrink(self, scn):
        return ()

    def describe(self, scn):
        return scn

    def signature(self, scn, v):
        return v.kind + "|" + str(v.detail.get("call", ""))

    def end(self, st):
        return None

    def extra(self):
        return None

    def conclude(self, extras):
        return []

    def replay(self, scn, execute):
        log, v = execute(self, scn, core.Stats())
        return v
