"""Command line: run a check, a worker of it, or a replay.

    python -m sim.run check  <ID>            (VERIF_SEED, VERIF_TIER)
    python -m sim.run replay <file>
    python -m sim.run worker <ID> ...        (internal)
"""
import hashlib
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable


def load(prop):
    return importlib.import_module("sim.checks." + prop.lower()).CHECK


def run_seed(prop, seed, k):
    return int(hashlib.sha256(("%s/%d/%d" % (prop, seed, k)).encode()).hexdigest()[:12], 16)


def env_for(hashseed):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hashseed)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = VERIF
    e.pop("PYTHONSTARTUP", None)
    return e


# ------------------------------------------------------------------ worker
def prepare(check):
    """Installs the seams and lets the check set itself up (in this process)."""
    from . import core, engine
    core.quiet()
    engine.setup(**check.setup)
    check.begin()


def execute(check, scn, st):
    """One simulated run. Returns (log, violation or None)."""
    from . import core, engine
    from .catalog import Unbuildable
    from .engine import E
    E.cur, E.aborting, E.sched, E.rng_override = None, None, None, None
    engine.reseed_harness()
    try:
        try:
            return check.run(scn, st), None
        except Unbuildable as e:
            E.cur = None
            core.rejected(e)
            st.add("runs skipped: the scene has an object its class rejects")
            return ("skipped",), None
    except core.Violation as v:
        return ("violation", v.kind), v
    finally:
        E.cur, E.aborting, E.sched, E.rng_override = None, None, None, None


def worker(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--first", type=int)
    ap.add_argument("--stride", type=int)
    ap.add_argument("--count", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--out")
    ap.add_argument("--digests", action="store_true")
    ap.add_argument("--reverse", action="store_true")
    a = ap.parse_args(argv)
    check = load(a.prop)
    prepare(check)
    from . import core
    from .engine import E
    st = core.Stats()
    res = {"runs": 0, "violation": None, "known": {}, "samples": [], "digests": {}, "cut": False}
    known = known_findings(a.prop)
    t0 = time.monotonic()
    cpu0 = time.process_time()
    current = [None]

    def panic(why):                      # the code under test cannot be stopped any more
        res["violation"] = {"k": current[0][0], "kind": "does not end", "detail": {"why": why},
                            "scenario": current[0][1]}
        finish()
        os._exit(0)
    E.panic = panic

    def finish():
        res["stats"] = st.c
        res["inter"] = sorted(st.inter)[:60000]
        res["pairs"] = sorted(st.pairs)[:60000]
        res["cases"] = sorted(st.cases)[:400000]
        res["steps"] = E.total_steps
        res["cov"] = [i for i in E.package.stmt_sites if E.cov[i]]
        res["stmts"] = len(E.package.stmt_sites)
        res["missed"] = ["%s:%d" % E.package.sites[i][:2] for i in E.package.stmt_sites if not E.cov[i]]
        res["wall"] = time.monotonic() - t0
        res["cpu"] = time.process_time() - cpu0
        with open(a.out + ".tmp", "w") as f:
            json.dump(res, f)
        os.rename(a.out + ".tmp", a.out)

    ks = list(range(a.first, a.count, a.stride))
    if a.reverse:
        ks.reverse()
    for k in ks:
        if time.monotonic() - t0 > a.wall:
            res["cut"] = True
            break
        scn = check.gen(random.Random(run_seed(a.prop, a.seed, k)), k)
        scn["k"] = k
        current[0] = (k, scn)
        log, v = execute(check, scn, st)
        res["runs"] += 1
        if a.digests:
            res["digests"][str(k)] = core.digest(log)
        if len(res["samples"]) < 1 and k >= check.sample_from:
            s = check.describe(scn)
            if s is not None:
                res["samples"].append(s)
        if v is not None:
            sig = check.signature(scn, v)
            if sig in known:
                res["known"][sig] = res["known"].get(sig, 0) + 1
                continue
            scn = v.detail.pop("scenario", None) or check.freeze(scn)
            scn, v, tried = minimise(check, scn, v)
            res["violation"] = {"k": k, "kind": v.kind, "detail": v.detail, "scenario": scn, "tried": tried}
            break
    try:
        ev = check.end(st)
        if ev is not None and res["violation"] is None:
            res["violation"] = ev
        res["extra"] = check.extra()
    except core.Violation as v:
        res["violation"] = res["violation"] or {"k": -1, "kind": v.kind, "detail": v.detail,
                                                "scenario": v.detail.pop("scenario", {})}
    finish()
    return 0


def minimise(check, scn, v, budget=15.0):
    """Greedy: keep any smaller scenario that still breaks the property in the same way."""
    from . import core
    st = core.Stats()
    t0 = time.monotonic()
    tried = 0
    # the frozen scenario must reproduce to be minimised
    try:
        log, v2 = execute(check, scn, st)
    except Exception as e:
        v.detail["note"] = "the frozen scenario cannot be repeated: %r" % (e,)
        return scn, v, tried
    if v2 is None or v2.kind != v.kind:
        v.detail["note"] = "the frozen scenario does not reproduce in the same process"
        return scn, v, tried
    v2.detail.pop("scenario", None)
    v = v2
    again = True
    while again and time.monotonic() - t0 < budget:
        again = False
        for cand in check.shrink(scn):
            tried += 1
            try:
                log, v2 = execute(check, cand, st)
            except Exception:
                continue
            if v2 is not None and v2.kind == v.kind:
                v2.detail.pop("scenario", None)
                scn, v, again = cand, v2, True
                break
            if time.monotonic() - t0 > budget:
                break
    return scn, v, tried


def known_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {e["signature"]: e["what"] for e in d.get("findings", []) if e["property"] == prop}


# ------------------------------------------------------------------ replay
def replay(path, quiet=False):
    with open(path) as f:
        r = json.load(f)
    check = load(r["property"])
    if not os.environ.get("SIM_REPLAYING") and os.environ.get("PYTHONHASHSEED") != str(r.get("hashseed", 0)):
        e = env_for(r.get("hashseed", 0))
        e["SIM_REPLAYING"] = "1"
        return subprocess.call([PY, "-m", "sim.run", "replay", path], env=e, cwd=VERIF)
    prepare(check)
    from . import core
    from .engine import E

    def panic(why):
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        print("  kind: does not end (%s)" % why, flush=True)
        os._exit(1)
    E.panic = panic
    v = check.replay(r["scenario"], execute)
    if v is None:
        print("replay: the property holds in this run (recorded: %s)" % r["kind"])
        return 0
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    print("  kind: %s%s" % (v.kind, "" if v.kind == r["kind"] else "   (recorded: %s)" % r["kind"]))
    for k, x in v.detail.items():
        print("  %s: %s" % (k, x))
    return 1


# ------------------------------------------------------------------ parent
def launch(check, prop, seed, count, nproc, wall, tmp, tag="w", hashseed=0, digests=False, reverse=False):
    procs = []
    for w in range(nproc):
        out = os.path.join(tmp, "%s%d.json" % (tag, w))
        cmd = [PY, "--jit", "threshold=5000,function_threshold=8000", "-m", "sim.run", "worker", prop, "--seed", str(seed), "--first", str(w),
               "--stride", str(nproc), "--count", str(count), "--wall", str(wall), "--out", out]
        if digests:
            cmd.append("--digests")
        if reverse:
            cmd.append("--reverse")
        err = open(os.path.join(tmp, "%s%d.err" % (tag, w)), "wb")
        procs.append((subprocess.Popen(cmd, cwd=VERIF, env=env_for(hashseed), stdout=err, stderr=err), out, err))
    return procs


def collect(procs, limit, tmp):
    """Waits for the workers; returns (results, errors)."""
    t0 = time.monotonic()
    results, errors = [], []
    for p, out, err in procs:
        try:
            p.wait(max(1.0, limit - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            errors.append("worker %s ran out of time" % os.path.basename(out))
            continue
        err.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(err.name, "rb") as f:
                errors.append("worker %s ended with status %s: %s" %
                              (os.path.basename(out), p.returncode, f.read()[-3000:].decode("utf-8", "replace")))
    return results, errors


def merge(results):
    m = {"runs": 0, "steps": 0, "stats": {}, "inter": set(), "pairs": set(), "cases": set(), "cov": set(), "stmts": 0,
         "samples": [], "known": {}, "cut": False, "cpu": 0.0, "missed": None}
    for r in results:
        m["runs"] += r["runs"]
        m["steps"] += r["steps"]
        m["cpu"] += r["cpu"]
        m["cut"] = m["cut"] or r["cut"]
        m["inter"].update(r["inter"])
        m["pairs"].update(r["pairs"])
        m["cases"].update(r["cases"])
        m["cov"].update(r["cov"])
        m["stmts"] = max(m["stmts"], r["stmts"])
        m["missed"] = set(r["missed"]) if m["missed"] is None else m["missed"] & set(r["missed"])
        m["samples"] += r["samples"]
        for k, n in r["stats"].items():
            m["stats"][k] = m["stats"].get(k, 0) + n
        for k, n in r["known"].items():
            m["known"][k] = m["known"].get(k, 0) + n
    return m


def check_main(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    check = load(prop)
    count = check.counts[tier]
    scale = float(os.environ.get("SIM_SCALE", "1"))
    count = max(8, int(count * scale))
    wall = check.walls[tier]
    nproc = int(os.environ.get("SIM_PROCS", min(8, os.cpu_count() or 1)))
    tmp = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    t0 = time.monotonic()
    print("seed=%d tier=%s property=%s runs=%d workers=%d" % (seed, tier, prop, count, nproc), flush=True)
    try:
        hard = wall + 120
        violations = []
        digests = check.digests or bool(os.environ.get("SIM_DIGESTS"))
        procs = launch(check, prop, seed, count, nproc, wall, tmp, digests=digests)
        results, errors = collect(procs, hard, tmp)
        second = []
        if digests and not errors:      # the same runs again: other processes, order and hash seed
            procs = launch(check, prop, seed, count, max(1, nproc - 1), wall, tmp, tag="v", hashseed=4711,
                           digests=True, reverse=True)
            second, e2 = collect(procs, hard, tmp)
            errors += e2
            a, b = {}, {}
            for r in results:
                a.update(r["digests"])
            for r in second:
                b.update(r["digests"])
            common = sorted((k for k in a if k in b), key=int)
            bad = [int(k) for k in common if a[k] != b[k]]
            if bad and not any(r["violation"] for r in results + second):
                k = bad[0]
                scn = check.gen(random.Random(run_seed(prop, seed, k)), k)
                scn["k"] = k
                violations.append({"k": k, "kind": "another process gives another result for the same seed",
                                   "detail": {"runs compared": len(common), "runs that differ": len(bad)},
                                   "scenario": {"cross": scn}})
        for r in results + second:
            if r["violation"]:
                violations.append(r["violation"])
        if not violations and not errors:
            check.seed, check.total_runs = seed, count
            violations += check.conclude([r.get("extra") for r in results])
        if errors and not violations:
            for e in errors[:2]:
                print("HARNESS ERROR: " + e)
            return 2
        m = merge(results)
        m["second"] = sum(r["runs"] for r in second)
        path = None
        if violations:
            v = sorted(violations, key=lambda v: v["k"])[0]
            path = save_replay(prop, seed, v)
        wall_s = time.monotonic() - t0
        write_evidence(check, prop, tier, seed, m, wall_s, len(violations), path)
        for s, n in sorted(m["known"].items()):
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, known_findings(prop)[s], n))
        print("runs=%d simulated steps=%d faults=%s statements covered=%d/%d wall=%.1fs%s" % (
            m["runs"], m["steps"], sum(n for k, n in m["stats"].items() if k.startswith("fault:")),
            len(m["cov"]), m["stmts"], wall_s, " (cut by the wall limit)" if m["cut"] else ""))
        if violations:
            # show that the replay file reproduces in a fresh process
            try:
                r = subprocess.run([PY, "-m", "sim.run", "replay", path], cwd=VERIF, env=env_for(0),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                rc, txt = r.returncode, r.stdout.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, txt = 9, "the replay ran out of time"
            print("replay in a fresh process: %s" % ("reproduced" if rc == 1 else
                                                     "NOT reproduced (status %d)" % rc))
            print("kind: %s" % v["kind"])
            for k, x in v["detail"].items():
                print("  %s: %s" % (k, x))
            if rc not in (0, 1):
                print(txt[-2000:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if m["runs"] == 0:
            print("HARNESS ERROR: nothing was run")
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def save_replay(prop, seed, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "seed": seed, "run": v["k"], "kind": v["kind"], "detail": v["detail"],
            "scenario": v["scenario"], "hashseed": 0, "minimisation_runs": v.get("tried", 0)}
    s = json.dumps(body, indent=1, default=str)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(s.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(s + "\n")
    return path


def write_evidence(check, prop, tier, seed, m, wall_s, nviol, path):
    st = m["stats"]
    faults = {k[6:]: n for k, n in sorted(st.items()) if k.startswith("fault:")}
    cov = {
        "evaluations": st.get("evaluations", m["runs"]),
        "distinct_nontrivial": len(m["cases"]),
        "rule": check.rule,
        "samples": m["samples"][:3],
        "simulated_runs": m["runs"],
        "runs_per_hour": int(m["runs"] / max(wall_s, 1e-9) * 3600),
        "seeds_per_hour": int(m["runs"] / max(wall_s, 1e-9) * 3600),
        "simulated_time": {"unit": "simulation points executed (the code under test reads no clock)",
                           "steps": m["steps"]},
        "faults_injected": faults,
        "distinct_states_reached": len(m["inter"]),
        "distinct_states_measure": check.measure,
        "distinct_call_statement_pairs_hit": len(m["pairs"]),
        "statements_of_the_package_executed": "%d of %d" % (len(m["cov"]), m["stmts"]),
        "statements_never_executed": sorted(m["missed"] or [])[:80],
        "real_components": ["planegeometry (all modules, compiled from the working tree)", "numpy",
                            "interpreter threads"] + check.real,
        "stubs": check.stubs,
        "counters": {k: n for k, n in sorted(st.items()) if not k.startswith("fault:")},
        "cut_by_wall_limit": m["cut"],
        "known_findings_seen": m["known"],
        "exhaustive": False,
    }
    if m.get("second"):
        cov["runs_repeated_in_other_processes"] = m["second"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": check.assumptions, "wall_s": round(wall_s, 2), "violations": nviol}
    if path:
        ev["coverage"]["replay"] = path
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


def main(argv):
    cmd = argv[0]
    if cmd == "worker":
        return worker(argv[1:])
    if cmd == "check":
        return check_main(argv[1])
    if cmd == "replay":
        return replay(argv[1])
    if cmd == "setup":
        from . import engine
        pkg = engine.setup()
        from .instrument import World
        World()
        print("ready: %d simulation points in %d statements" % (pkg.n_sites, len(pkg.stmt_sites)))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
