"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "seeded simulation of threads and re-entrant signal handlers over the real code; each call compared with itself run alone in a pristine world",
    "C02": "seeded injection of asynchronous exceptions at simulation points; state unchanged and retry compared with the undisturbed call",
    "C03": "seeded injection of interrupts, device, argument and numpy faults; the very exception or the fault-free outcome must come out",
    "C04": "seeded simulation of long call / update histories against a reference model: a fresh world built from the current values",
    "C05": "seeded injection of foreign writes into caller buffers, results and arguments at arbitrary steps; values and answers must not move",
    "C06": "simulated random source with adversarial draws, threads; membership oracle on every point",
    "C07": "simulated seeded random source over many runs, calls, threads and interrupts; exact law by probability integral transform tests",
    "C08": "simulation over numpy's real global stream and process settings with interrupts; state equality, same seeds again in other processes",
    "C09": "adversarial pivot orders chosen by a simulated random source; all runs agree and carry a minimality certificate",
    "C10": "adversarial pivot orders, interrupts and read-only input; step and depth bounds, outcome by input class",
    "C11": "simulated output device with short writes and errors under histories and threads; text complete, faithful, prefix on failure",
    "C13": "simulation of long seeded histories of calls, interrupts and device faults; retained data, dropped objects and steps per call stop growing",
    "C14": "real forks injected at seeded points inside calls of simulated threads and handlers; both processes compared with calls alone in an unforked process",
    "C15": "seeded fault injection into ambient settings, a simulated clock and python modes, before and in the middle of calls; outcomes equal to undisturbed ones",
    "C12": "simulated crash and restart: objects saved at arbitrary instants, restored in fresh worlds and processes; answers equal",
}
NOTE = {
    "default": "Seeded search, no proof: the property held on every simulated run explored (counts in the evidence file). "
               "Trusts the interpreter and numpy, whose C code is atomic in the simulation.",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(HERE, "sim", "checks", i.lower() + ".py")):
            checks.append({"property": i, "quick_cmd": PY + " -m sim.run check " + i,
                           "thorough_cmd": "VERIF_TIER=thorough " + PY + " -m sim.run check " + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": "deterministic simulation with fault injection: " + TECH[i],
                           "level": "exploration", "level_note": NOTE.get(i, NOTE["default"])})
        elif i.startswith("N"):
            na.append({"property": i, "reason": "A relation between the arguments and the result of single pure calls: "
                       "no schedule, fault, clock, I/O, randomness or history for a simulator to decide (see DESIGN.md)."})
        else:
            na.append({"property": i, "reason": "check under construction"})
    m = {"version": 1, "setup_cmd": PY + " -m sim.run setup", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
