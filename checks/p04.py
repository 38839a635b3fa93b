"""P04: the optimizer evaluates, awaits, ranks and adapts like the sequential strategy, under every schedule."""
import struct
import gen as G
from common import *
from drive import problem

PROP, LEVEL = "P04", "exploration"
BUILD = [("opt", False), ("opt", True)]
BUDGET = {"quick": (1000, 200), "thorough": (200000, 780)}
RULE = ("A case is a generated optimisation (dimension, parents, population, objective of 14 kinds, bounds of 8 kinds, accuracy, stop, update and trace modulus); the real optimizer runs it under several seeded "
        "schedules, with threads and with OpenMP, and the recorded evaluations are replayed into a sequential reference of the strategy which must predict every individual, the ranking, the state passed on, the trace, "
        "the status and the uncertainties; the maximised negative and costs scaled by a power of two must take the same decisions; non-trivial: the reference followed the search to its end and at least two workers "
        "ran; distinct: by schedule hashes and result.")
NOTE = ("Refinement check of every simulated run against a sequential reference implementation of the strategy inside the harness, which takes the recorded costs; seeded sampling of problems and schedules. "
        "The reference uses the project's own random deviates and eigenvalue decomposition (the latter checked for each use).")
ASSUME = ["generations with tied costs at the parents' rank or costs that are not numbers, and searches in a range of a few representable numbers, are followed only up to that point",
          "numbers are compared with a relative tolerance of 1e-5 or better, so that rounding of equivalent formulas is accepted"]


def problem_argv(rng, **o):
    n = rng.choice([1, 2, 2, 3, 4, 6, 8])
    par = rng.choice([1, 2, 2, 3, 3, 5, 8])
    pop = par + rng.choice([1, par, 2 * par, rng.randrange(1, 8)])
    a = dict(n=n, par=par, pop=pop, seed=rng.getrandbits(64), oseed=rng.getrandbits(30), obj=rng.randrange(14), bounds=rng.choice([0, 0, 1, 2, 3, 4, 5, 6]), stop=rng.choice([1, 2, 3, 8, 20]),
             s=rng.choice([0.1, 0.5, 1.0, 2.0]), acc=rng.choice([0.5, 0.1, 1e-2, 1e-4]), trace=rng.choice([0, 1, 2, 3, 7]), upd=rng.choice([1, 1, 1, 2, 3]), penalty=rng.choice([0, 0, 0.5]), free=rng.choice([0, 0, 0, 0, 1]))
    if rng.random() < 0.25:     # a search that ends by itself
        a.update(stop=rng.choice([60, 120]), n=rng.choice([1, 2, 3]), obj=rng.choice([0, 1, 2, 3, 13]), bounds=0, acc=rng.choice([0.1, 1e-2, 1e-3]), par=rng.choice([2, 3]))
        a["pop"] = 2 * a["par"] + rng.randrange(4)
        if rng.random() < 0.25:     # in more dimensions
            a.update(n=rng.choice([6, 9, 10, 12]), obj=rng.choice([0, 3, 13]), acc=rng.choice([3.0, 1.0, 0.5, 0.1]), stop=rng.choice([40, 80, 200]), s=rng.choice([0.1, 0.5, 1.0]))
    elif rng.random() < 0.12:   # parameters on scales far apart: the condition of the covariance is repaired
        a.update(bounds=7, n=rng.choice([2, 2, 3, 4, 6]), obj=rng.choice([0, 2, 3, 10, 13]), stop=rng.choice([1, 1, 2, 3, 8, 30]))
    elif rng.random() < 0.04:   # many parameters
        a.update(n=rng.choice([12, 19, 21, 27, 40]), stop=rng.choice([1, 2, 3]), bounds=rng.choice([0, 1]))
    elif rng.random() < 0.03:   # large populations
        a.update(par=rng.choice([16, 30]), stop=rng.choice([1, 2, 3]))
        a["pop"] = a["par"] * rng.choice([1, 2]) + rng.choice([1, 3, 10])
    a.update(o)
    return ["opt"] + ["%s=%s" % x for x in a.items()]


def gen(rng, i, tier):
    argv = problem_argv(rng)
    pop = int(dict(x.split("=") for x in argv[1:])["pop"])
    vs = []
    for k in range(rng.choice([2, 3, 4])):
        o = G.schedule(rng, 600 * pop * 5)
        v = {"opts": o}
        if rng.random() < 0.3:
            o["race"] = 1
        if rng.random() < 0.25:
            v["omp"] = True
            o.update(team=rng.choice([1, 2, 3, 8]), nested=rng.choice([0, 1]), teamvary=rng.choice([0, 1]))
        vs.append(v)
    return {"cfg": {"flavour": "opt", "argv": argv, "model": "", "files": {}, "n": 0}, "variants": vs, "scale": rng.choice([-20, -3, 1, 7, 20])}


def lines(r):
    d, tr, vi = {}, [], []
    for l in r.out.decode().replace("-0x0p+0", "0x0p+0").replace("-nan", "nan").split("\n"):
        k, _, v = l.partition(" ")
        if k == "trace":
            tr.append(v.split())
        elif k == "VIOL":
            vi.append(v.split("|", 1))
        elif k:
            d[k] = v
    return d, tr, vi


def mine(c):
    return "outside bounds" not in c


def evaluate(case, R):
    cfg = case["cfg"]
    base = R(spec(cfg))
    if base.kind != "exit" or base.code:
        return [problem("optimizer fails", "%s: %s" % (" ".join(cfg["argv"]), show(base)))]
    d, tr, vi = lines(base)
    ps = [problem(c, "%s: %s" % (" ".join(cfg["argv"]), t)) for c, t in vi if mine(c)]
    hs = [base.hash]
    for v in case["variants"]:
        r = R(spec(cfg, v))
        hs.append(r.hash)
        if (r.kind, r.code) != (base.kind, base.code):
            ps.append(problem("schedule-dependent search", "%s: %s" % (" ".join(cfg["argv"]), show(r))))
        else:
            e, te, vi = lines(r)
            ps += [problem(c, "%s: %s" % (" ".join(cfg["argv"]), t)) for c, t in vi if mine(c)]
            if (e, te) != (d, tr) and not vi:
                ps.append(problem("schedule-dependent search", "%s: %s" % (" ".join(cfg["argv"]), diff(base.out, r.out))))
        if r.race:
            ps.append(problem("data race", "%s: %d conflicting unsynchronised accesses, first %r" % (" ".join(cfg["argv"]), len(r.race), r.race[0])))
        if ps:
            return ps
    a = dict(x.split("=") for x in cfg["argv"][1:])
    if not case["variants"] or ps:
        return ps
    v = case["variants"][0]
    r = R(spec(dict(cfg, argv=cfg["argv"] + ["max=1"]), v))
    e, te, vi = lines(r)
    if (e, te) != (d, tr):
        ps.append(problem("maximising is not minimising the negative", "%s: %s %s" % (" ".join(cfg["argv"]), show(r), diff(base.out, r.out))))
    if a["obj"] not in ("9",) and not ps:
        k = case["scale"]
        r = R(spec(dict(cfg, argv=cfg["argv"] + ["scale=%d" % k]), v))
        e, te, vi = lines(r)
        same = all(e.get(q) == d.get(q) for q in ("x", "d", "B", "C", "ps", "pc", "s", "g", "flags"))
        f = lambda q: float.fromhex(q)
        same = same and "y" in e and (f(e["y"]) == f(d["y"]) * 2.0 ** k or f(d["y"]) != f(d["y"]))
        same = same and len(te) == len(tr) and all(p[0] == q[0] and p[2:] == q[2:] and (f(p[1]) == f(q[1]) * 2.0 ** k or f(q[1]) != f(q[1])) for p, q in zip(te, tr))
        if not same:
            ps.append(problem("scaled costs change the search", "%s scale=%d: %s %s" % (" ".join(cfg["argv"]), k, show(r), diff(base.out, r.out))))
    ref = d.get("ref", "").split()
    if ref and ref[0] == "full" and base.c("threads") > 1:
        R.sig(hs, base.out)
        R.note("generations refined", int(ref[1]))
        R.note("individuals refined", int(ref[2]))
        R.note("searches optimized", int(d["flags"][0]))
        R.note("searches underflowed", int(d["flags"][2]))
        R.note("covariances repaired", int(d.get("repaired", "0")))
    else:
        R.trivial()
    R.sample({"argv": cfg["argv"], "variants": [v["opts"] for v in case["variants"]], "reference": ref, "result": d.get("x")})
    return ps


def shrink(case, R):
    import copy
    import shrink as S
    yield from S.simpler(case, R)
    a = case["cfg"]["argv"]
    for i, x in enumerate(a):
        k, _, v = x.partition("=")
        for t in {"stop": ["1", "2", "3"], "trace": ["0"], "penalty": ["0"], "upd": ["1"], "free": ["0"], "n": ["1", "2"], "obj": ["0"], "bounds": ["0"], "seed": ["1"]}.get(k, []):
            if v != t and (k not in ("stop", "n") or int(t) < int(v)):
                c = copy.deepcopy(case)
                c["cfg"]["argv"][i] = k + "=" + t
                yield c
