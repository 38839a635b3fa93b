"""Writes MANIFEST.json from the check modules."""
import importlib, json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(D, "lib"), os.path.join(D, "checks")]
NA = {
    "P21": "A numerical property of one pure function: it depends on no thread, clock, input or output, fault or history, so there is nothing to schedule or inject.",
    "P22": "A numerical property of pure functions without any schedule, time, I/O or fault to depend on; a simulator adds nothing over plain evaluation.",
    "P23": "A sequence of a single-threaded object with no input, output, time or fault; the schedule-independence of its use is decided in P04 and P15.",
    "P24": "A numerical property of pure functions; the tools that apply them are decided in P19.",
}
checks, na = [], []
for l in open(os.path.join(D, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(D, "checks", p.lower() + ".py")):
        m = importlib.import_module(p.lower())
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "technique": getattr(m, "TECHNIQUE", "deterministic simulation with fault injection: seeded search over schedules and faults"),
                       "level": m.LEVEL, "level_note": m.NOTE})
    else:
        na.append({"property": p, "reason": NA.get(p, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: all seams are at compile and link time."}, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
