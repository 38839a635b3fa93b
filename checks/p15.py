"""P15: a result is a function of command line, model and data only."""
import gen as G, doc, tools
from common import *
from drive import problem
import p05

PROP, LEVEL = "P15", "exploration"
BUILD = tools.BUILD_ALL + [("rec_" + f, False) for f in FLAVOURS] + [(f, True) for f in FLAVOURS]
BUDGET = {"quick": (4500, 200), "thorough": (100000, 780)}
RULE = ("Three of four cases: a generated run of any program (analyses to any end, with and without OpenMP; tools; utilities), repeated in seeded surroundings: contents of fresh heap and stack (zero, ones, patterns, not-a-number, small integers, pointers), order of recycling, base addresses, clock, processor count, "
        "entropy and process identity, piece sizes of input and output, with the schedule unchanged; output, messages and status must be the same to the byte. Each fourth case: an analysis with a seed and with the same seed with one of its 64 bits flipped: the recorded first individuals must differ, and with the seed unchanged "
        "(written in another way) be the same. non-trivial: all repetitions ended alike (seeds: individuals were recorded); distinct: by output and surroundings.")
NOTE = "Seeded perturbation of everything around the program that must not matter, in complete simulated runs; byte comparison."
ASSUME = ["memory is perturbed by contents, order and place; a read of uninitialised memory that never influences the output is not reported"]


def gen(rng, i, tier):
    if i % 4 == 3:
        fl = FLAVOURS[(i // 4) % 4]
        s = rng.choice([rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(32), 0, 1, 5489, 2 ** 64 - 1])
        c = G.config(rng, fl, "tiny", stop=1, accuracy=1e-3, seed=1)
        cfg = cfg_json(c)
        cfg["flavour"] = "rec_" + fl
        return {"kind": "seed", "cfg": cfg, "seed": s, "bits": [rng.randrange(64) for _ in range(3)] + [rng.randrange(32, 64)], "tool": None}
    if i % 4 == 0 and rng.random() < 0.5:
        case = tools.any_case(rng, i, tier)
    else:
        case = tools.any_case(rng, i, tier, prog=rng.choice(FLAVOURS), stop=rng.choice([0, 1, 1, 2, 3, 8, 20, 40]), accuracy=rng.choice([0.5, 0.1, 0.03, 1e-3]), trace=rng.choice([0, 1, 2]))
    case["kind"] = "env"
    case["omp"] = case["prog"] in FLAVOURS and rng.random() < 0.25
    case["sched"] = G.schedule(rng, 30000) if case["prog"] in FLAVOURS else {}
    case["variants"] = [{"opts": G.environment(rng)} for _ in range(4)]
    if case["omp"]:
        case["sched"]["team"] = rng.choice([1, 2, 4])
    return case


def evaluate(case, R):
    if case["kind"] == "seed":
        return seeds(case, R)
    s = tools.subject(case, R)
    s.omp = case["omp"]
    s.opts = dict(s.opts, **case["sched"])
    base = R(s)
    o0 = dict(s.opts)
    for v in case["variants"]:
        e = dict(v["opts"])
        if case["omp"]:
            e.pop("ncpu", None)      # the team is given
        s.opts = dict(o0, **e)
        r = R(s)
        if (r.kind, r.code, r.out, r.err) != (base.kind, base.code, base.out, base.err):
            return [problem("the surroundings change the result", "%s in %r: %s instead of %s; %s" % (tools.label(case), e, show(r), show(base), diff(base.out, r.out)))]
        R.sig(base.out, sorted(e.items()))
        R.note("surroundings")
    R.sample({"program": case["prog"], "surroundings": [v["opts"] for v in case["variants"]], "status": base.code, "bytes": len(base.out)})
    return []


def individuals(r):
    return [e["x"] for e in p05.records(r.rec) if e["type"] == 1]


def seeds(case, R):
    cfg = case["cfg"]

    def run(s):
        a = list(cfg["argv"])
        a[1] = s
        return R(spec(dict(cfg, argv=a)))
    r = run(str(case["seed"]))
    x = individuals(r)
    if r.kind != "exit" or not x:
        R.trivial()
        return []
    q = run("0" + str(case["seed"]))
    if individuals(q) != x:
        return [problem("the same seed gives another search", "seed %d" % case["seed"])]
    for b in case["bits"]:
        s = case["seed"] ^ (1 << b)
        y = individuals(run(str(s)))
        lam = int(cfg["argv"][3])
        if y[:lam] == x[:lam] or any(p == q for p, q in zip(x[:lam], y[:lam])):
            return [problem("different seeds give the same search", "%s: seeds %d and %d (bit %d)" % (cfg["flavour"][4:], case["seed"], s, b))]
        R.sig(case["seed"], b, x)
        R.note("seed bits")
    return []
