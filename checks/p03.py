"""P03: concurrent evaluation of shared models, sections, superpositions and profiles."""
import gen as G
from common import *
from drive import problem

PROP, LEVEL = "P03", "exploration"
BUILD = [("eval_" + f, False) for f in FLAVOURS]
BUDGET = {"quick": (900, 200), "thorough": (100000, 780)}
RULE = ("A case builds the objects of a generated model (the model, its sections, superpositions and profiles) and evaluates 9-17 points on them from 2-5 threads in different orders under a "
        "seeded schedule with happens-before race detection; every value is compared bit by bit with the value a fresh run computes for this point alone, and the document of the model before and after; "
        "non-trivial: at least one switch between threads inside the evaluations; distinct: by schedule hash and values.")
NOTE = ("Seeded sampling of interleavings of real evaluation code with preemption at every memory access and a happens-before race detector on every run; "
        "trusts that shared libraries (libm, libstdc++) are themselves free of races.")
ASSUME = ["points and objects are generated; several points are equal so that the same object is evaluated at the same and at different values"]


def gen(rng, i, tier):
    c = G.config(rng, FLAVOURS[i % 4], rng.choice(["tiny", "tiny", "small"]), dim=rng.choice([1, 3, 5]))
    P, T = rng.choice([9, 12, 17]), rng.choice([2, 2, 3, 5])
    vs = []
    for k in range(2):
        o = G.schedule(rng, 2000 * P * T)
        while o["policy"] == 0:
            o = G.schedule(rng, 2000 * P * T)
        o["race"] = 1
        vs.append({"opts": o})
    return {"cfg": {"flavour": "eval_" + c.flavour, "argv": ["eval", str(rng.getrandbits(40)), str(P), str(T), "-1"], "model": c.model, "files": c.files, "n": c.n}, "variants": vs}


def evaluate(case, R):
    cfg = case["cfg"]
    P, T = int(cfg["argv"][2]), int(cfg["argv"][3])
    ps, alone = [], {}
    for k in range(P):
        c = dict(cfg, argv=cfg["argv"][:4] + [str(k)])
        r = R(spec(c))
        if r.kind != "exit" or r.code:
            R.trivial()
            return [] if r.kind == "exit" else [problem("evaluation fails alone", "point %d: %s" % (k, show(r)))]
        a = r.out.decode().split(" ", 1)
        alone[int(a[0])] = a[1].strip()
    hs, sw = [], 0
    for v in case["variants"]:
        r = R(spec(cfg, v))
        hs.append(r.hash)
        sw += r.c("preemptions")
        if r.race:
            ps.append(problem("data race", "%d conflicting unsynchronised accesses during concurrent evaluation, first %r" % (len(r.race), r.race[0])))
        elif r.kind != "exit" or r.code:
            ps.append(problem("evaluation fails concurrently", show(r)))
        else:
            ls = r.out.decode().split("\n")
            for l in ls[:P * T]:
                k, val = l.split(" ", 1)
                if alone[int(k)] != val.strip():
                    ps.append(problem("value depends on other evaluations", "%s point %s: %s concurrently, %s alone" % (cfg["flavour"], k, val, alone[int(k)])))
                    break
            if ls[P * T] != "document same" and not ps:
                ps.append(problem("evaluation has side effects", "the document of the model changed by evaluating its cost"))
        if ps:
            break
    if sw:
        R.sig(hs, sorted(alone.items()))
    else:
        R.trivial()
    R.note("points", P * T * len(hs))
    R.sample({"argv": cfg["argv"], "program": cfg["flavour"], "schedules": [v["opts"] for v in case["variants"]], "values": list(alone.items())[:4]})
    return ps
