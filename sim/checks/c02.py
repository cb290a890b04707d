"""C02: a call cut short at any instant leaves no trace."""
import copy

from .. import catalog, core, instrument
from ..base import Check
from ..canon import show
from ..core import Violation
from ..gen import focus, related

KINDS = ["interrupt", "timeout", "memory", "cancel", "exit"]


class C02(Check):
    prop = "C02"
    counts = {"quick": 12000, "thorough": 90000}
    rule = ("One run = one scene, three calls and a sequence of 10 asynchronous exceptions, each raised at a "
            "random step (before a statement, after a call, attribute or item access, inside a draw of the random "
            "source or a write to the output) of one of the calls; operations are visited in turn. After each: "
            "public values of every object, array and argument compared with before, the call retried (step bound) "
            "and other calls made, compared with the call alone in a pristine world. Non-trivial: the exception was "
            "delivered inside the library.")
    measure = "distinct (operation, statement hit, exception kind) triples"
    stubs = ["asynchronous exception delivery (raised at simulation points)", "standard output",
             "numpy random stream (seeded per call)"]
    assumptions = ["C code of numpy and of the interpreter runs to completion between two simulation points"]

    def gen(self, rng, k):
        g, op = focus(rng, k)
        ops = [op, related(g, op, rng), related(g, op, rng)]
        hits = []
        for _ in range(10):
            hits.append({"op": 0 if rng.random() < .7 else rng.randrange(3), "f": rng.random(),
                         "kind": rng.choice(KINDS), "retry": rng.random() < .75,
                         "probe": rng.randrange(3) if rng.random() < .4 else None})
        scene, ops = core.prune(g.scene(), ops)
        return {"scene": scene, "ops": ops, "hits": hits, "seed": rng.randrange(1 << 30)}

    def run(self, scn, st):
        scene, ops, seed = scn["scene"], scn["ops"], scn["seed"]
        st.scenario(scene, ops)
        base = [core.alone(scene, op, seed, True) for op in ops]
        w = instrument.World()
        env = catalog.Env(w, scene, ops)
        before = core.snapshot(env)
        log = []
        for h in scn["hits"]:
            i = h["op"]
            if base[i].steps < 1:
                continue
            if "at" not in h:
                h["at"] = core.pick_step(base[i], h["f"])
            b = core.Bound(env, ops[i])
            info = {}
            d = core.call(b.fn, seed, core.fault_hook(h["at"], h["kind"], info))
            if info:
                st.add("fault:" + h["kind"])
                st.add("evaluations")
                st.case(i, h["at"], h["kind"])
                st.inter.add(hash((ops[i]["fn"], info["site"], h["kind"])))
                st.pairs.add(hash((ops[i]["fn"], info["site"])))
            log.append((h["at"], d.out))
            what = {"call": core.op_text(ops[i]), "fn": ops[i]["fn"], "fault": h["kind"], "at step": h["at"],
                    "of": base[i].steps}
            ch = core.changed(before, env) or b.changed()
            if ch:
                raise Violation("an aborted call changed an object or array", **what, **ch)
            if h["retry"]:
                self.again(env, ops[i], base[i], seed, what, "a call repeated after an abort differs")
            if h["probe"] is not None:
                j = h["probe"]
                self.again(env, ops[j], base[j], seed, dict(what, then=core.op_text(ops[j])),
                           "a call made after an aborted one differs")
        for j in range(len(ops)):
            self.again(env, ops[j], base[j], seed, {"call": core.op_text(ops[j]), "when": "after the last fault"},
                       "a call made after an aborted one differs")
        return tuple(log), tuple((b.out, b.text) for b in base)

    def again(self, env, op, base, seed, what, kind):
        d = core.call(env.bind(op), seed, limit=3 * base.steps + 2000)
        if d.out[0] == "abort":
            raise Violation("a call made after an aborted one does not end", why=d.out[1], **what)
        if not core.agree(d, base):
            raise Violation(kind, expected=core.describe(base), got=core.describe(d), **what)

    def shrink(self, scn):
        for i in range(len(scn["hits"])):
            c = copy.deepcopy(scn)
            del c["hits"][i]
            yield c
        for i, h in enumerate(scn["hits"]):
            if h["probe"] is not None:
                c = copy.deepcopy(scn)
                c["hits"][i]["probe"] = None
                yield c
            if h["kind"] != "interrupt":
                c = copy.deepcopy(scn)
                c["hits"][i]["kind"] = "interrupt"
                yield c
        used = {h["op"] for h in scn["hits"]} | {h["probe"] for h in scn["hits"]}
        for j in range(len(scn["ops"])):
            if j not in used and len(scn["ops"]) > 1:
                c = copy.deepcopy(scn)
                del c["ops"][j]
                for h in c["hits"]:
                    for key in ("op", "probe"):
                        if h[key] is not None and h[key] > j:
                            h[key] -= 1
                c["scene"], c["ops"] = core.prune(c["scene"], c["ops"])
                yield c

    def describe(self, scn):
        return {"objects": [s["cls"] for s in scn["scene"]["pool"]], "calls": [core.op_text(o) for o in scn["ops"]],
                "faults": [(h["op"], h.get("at"), h["kind"]) for h in scn["hits"]]}


CHECK = C02()
