"""P01: every schedule of the worker threads gives the same bytes and the same status."""
import gen as G
from common import *
from drive import problem

PROP, LEVEL = "P01", "exploration"
BUILD = [(f, False) for f in FLAVOURS]
BUDGET = {"quick": (2000, 200), "thorough": (200000, 780)}
RULE = ("A case is a generated analysis (flavour, command line, 1-3 sections, data) run under the run-to-completion schedule and under several seeded schedules "
        "(random preemption, round robin, priority change points, stalls, reversed and shuffled start order), a third of them with happens-before race detection; "
        "non-trivial: at least two workers ran and at least one schedule differed in its hash; distinct: by the hash of all schedules and the document.")
NOTE = ("Seeded sampling of schedules of the real programs with preemption at every memory access, plus happens-before race detection on a third of the runs; "
        "trusts the simulator and that the sampled analyses are representative.")
ASSUME = ["seeded sampling of schedules; preemption points are memory accesses and synchronisation of the compiled program (code of libstdc++ headers included, of shared libraries not)",
          "sequentially consistent interleavings; weaker orders are covered by the race detector, which reports any unsynchronised conflicting accesses"]


def gen(rng, i, tier):
    big = tier == "thorough" and rng.random() < 0.15 or rng.random() < 0.04
    c = G.config(rng, FLAVOURS[i % 4], "medium" if big else "small", dim=rng.choice([1, 2, 3, 4, 6, 9, 14]) if big else None,
                 stop=rng.choice([1, 2, 3, 4, 6, 10]), population=rng.choice([None, None, None, 17, 33]) if big else None)
    if i % 67 == 5:     # thousands of evaluations
        c = G.config(rng, FLAVOURS[i // 67 % 4], "tiny", npts=6, nsec=1, dim=2, stop=rng.choice([150, 250, 400]), accuracy=1e-12, trace=rng.choice([0, 1, 50]), population=rng.choice([7, 9, 12]), parents=rng.choice([2, 3]))
    est = 30000 * int(c.argv[3])
    vs = []
    for k in range(rng.choice([3, 4, 6])):
        o = G.schedule(rng, est)
        if rng.random() < 0.33:
            o["race"] = 1
        if rng.random() < 0.2:
            o.update({"junk": rng.randrange(7), "mseed": rng.getrandbits(30)})
        vs.append({"opts": o})
    return {"cfg": cfg_json(c), "variants": vs}


def evaluate(case, R):
    cfg = case["cfg"]
    base = R(spec(cfg))
    ps = []
    if base.kind not in ("exit", "abort", "signal"):
        R.note("base." + base.kind)
        return ps
    hs = [base.hash]
    for v in case["variants"]:
        r = R(spec(cfg, v))
        hs.append(r.hash)
        if r.outcome() != base.outcome():
            if (r.kind, r.code) != (base.kind, base.code):
                t = "outcome %s instead of %s" % (show(r), show(base))
            else:
                t = "output differs, " + (diff(base.out, r.out) if base.out != r.out else "stderr: " + diff(base.err, r.err))
            ps.append(problem("schedule-dependent result", "%s: %s" % (brief(cfg), t)))
        if r.race:
            ps.append(problem("data race", "%s: %d conflicting unsynchronised accesses, first %r" % (brief(cfg), len(r.race), r.race[0])))
        if ps:
            break
    if base.c("threads") > 1 and len(set(hs)) > 1:
        R.sig(hs, base.out)
    else:
        R.trivial()
    R.sample({"command": cfg["argv"], "schedules": [v["opts"] for v in case["variants"]], "hashes": hs, "exit": base.code, "steps": base.steps})
    return ps
