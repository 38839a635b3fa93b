"""P17: quadrature is independent of team and schedule, and accurate."""
import math
import gen as G
from common import *
from drive import problem

PROP, LEVEL = "P17", "exploration"
BUILD = [("integ", False), ("integ", True)]
BUDGET = {"quick": (3000, 200), "thorough": (400000, 780)}
RULE = ("A case is an integrand (polynomials, exponentials, waves, peaks, line absorption, and kinks, poles, steps, NaN), interval (finite or infinite; convolution), pair of formulas, accuracy goal and maximum number of refinements; "
        "it is integrated by one thread, by OpenMP teams of seeded sizes under seeded schedules, and by concurrent threads that share the integrator. Judged: the true integral to within the goal for integrands that the nodes resolve; always the "
        "result of a plain reference that bisects the part with the largest estimate, without reuse of values; abscissas inside the interval; number of calls bounded; equal results for all threads; no conflicting access. "
        "non-trivial: more than one part or more than one worker; distinct: by schedule hashes and result.")
NOTE = "Refinement against a reference without reuse of values and accuracy against the true integral, over simulated teams and schedules; seeded sampling."
ASSUME = ["the true integral is required only of integrands that vary on scales the nodes resolve (an adaptive rule cannot know of a peak between its nodes)"]


def integrand(rng):
    mode = rng.choice(["fin"] * 6 + ["pos", "pos", "neg", "inf", "conv"])
    p = rng.choice([0, 1, 1, 2])
    q = 2 if p == 1 and rng.random() < 0.6 else rng.randrange(p + 1, 4)
    o = {"mode": mode, "p": p, "q": q}
    fine = True
    s = rng.choice([1, 1, -1]) * 10 ** rng.choice([0, 0, rng.uniform(-3, 3)])
    goal = 10 ** rng.uniform(*rng.choice([(-11, -1)] * 6 + [(-16, -11)]))
    if mode == "fin":
        a = rng.choice([0, -1, rng.uniform(-100, 100)])
        L = 10 ** rng.uniform(-2, 2)
        b = a + L
        k = rng.choice([0, 0, 1, 2, 3, 3, 4, 4, 6, 6, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15])
        o.update(fn=k, a=a, b=b, s=s, c=a + L * rng.uniform(-0.2, 1.2), w=L)
        if k == 0:
            o["w"] = L
            o["c"] = a
            for i in range(rng.randrange(1, 10)):
                o["p%d" % i] = rng.uniform(-1, 1)
        elif k == 1:
            o["k"] = rng.choice([-1, 1]) * rng.uniform(0.1, 6) / L
            o["c"] = a
        elif k == 2:
            o["k"] = rng.uniform(0.1, 20) / L
            if rng.random() < 0.3:
                o["k"], fine = 10 ** rng.uniform(1.3, 3.5) / L, False
            o["c"] = rng.uniform(0, 6)
        elif k in (3, 4, 6):
            fine = rng.random() < 0.5
            o["w"] = L * (10 ** rng.uniform(-0.8, 0.5) if fine else 10 ** rng.uniform(-3.5, -0.8))
            o["k"] = 10 ** rng.uniform(-2, 1.5)
        if k > 6 and k != 14:
            fine = False
        scale = abs(s) * L if k else L
        goal *= scale
    elif mode == "conv":
        # positive "spectrum" exp(-f): a peak
        o.update(fn=3, w=rng.uniform(0.3, 1.0), w2=rng.uniform(0.3, 1.0), c=rng.uniform(-0.5, 0.5), x=rng.uniform(-0.5, 0.5), s=rng.uniform(0.1, 1))
        goal, fine = 1e-6, True
    else:
        k = rng.choice([5, 3, 6, 6, 8, 10])
        o.update(fn=k, s=s, c=rng.uniform(-1, 1), w=rng.uniform(0.3, 1.2), k=10 ** rng.uniform(-1, 1))
        if k == 5:
            o.update(w=rng.uniform(1, 3), k=rng.randrange(0, 5))
        if k in (8, 10):
            fine = False
        if k in (3, 6) and rng.random() < 0.3:
            o["w"] = 10 ** rng.uniform(-3, -0.5)
            fine = False
        goal = max(goal, 1e-9) * abs(s)
    iters = rng.choice([100, 100, 100, 0, 1, 2, 5, 20] if fine else [0, 1, 2, 5, 10, 20, 60, 100, 150])
    if fine and rng.random() < 0.2:
        o.update(iter=-1)
    else:
        o.update(iter=iters, goal=goal)
        if rng.random() < 0.1:
            o.update(goal=0, iter=rng.choice([0, 1, 5, 20]))
    return o, fine


def gen(rng, i, tier):
    o, fine = integrand(rng)
    vs = []
    for k in range(rng.choice([2, 3])):
        v = {"opts": G.schedule(rng, 400), "omp": rng.random() < 0.75}
        if v["omp"]:
            v["opts"].update(team=rng.choice([1, 2, 2, 3, 3, 5, 8]), nested=rng.choice([0, 0, 1]), teamvary=rng.choice([0, 1]), race=rng.choice([0, 0, 1]))
        if rng.random() < 0.3 or not v["omp"]:
            v["threads"] = rng.choice([1, 2, 3])
            v["opts"]["race"] = 1
        vs.append(v)
    return {"cfg": {"flavour": "integ", "argv": ["integ"] + ["%s=%s" % (k, repr(x) if isinstance(x, float) else x) for k, x in o.items()], "model": "", "files": {}, "n": 0}, "fine": fine, "variants": vs}


def parse(r):
    d = {"value": []}
    for l in r.out.decode().split("\n"):
        k, _, v = l.partition(" ")
        if k == "value":
            d["value"].append(float.fromhex(v))
        elif k:
            d[k] = v.split()
    return d


def close(a, b, tol):
    return a == b or (a != a and b != b) or abs(a - b) <= tol


def evaluate(case, R):
    cfg = case["cfg"]
    o = dict(x.split("=") for x in cfg["argv"][1:])
    txt = " ".join(cfg["argv"])
    mode, goal, it = o["mode"], float(o.get("goal", 1e-6)), int(o["iter"])
    it = 100 if it < 0 or mode == "conv" else it
    nw = [13, 19, 27, 41][int(o["q"])]
    hs, out, workers, v0, parts = [], b"", 1, None, 1
    for v in [None] + case["variants"]:
        k = v and v.get("threads") or 0
        r = R(spec(dict(cfg, argv=cfg["argv"] + (["ref=0"] if v else []) + (["threads=%d" % k] if k else [])), v))
        what = txt + (" team %s threads %d" % (v["opts"].get("team"), k) if v else "")
        if r.kind != "exit" or r.code:
            return [problem("quadrature does not end", "%s: %s" % (what, show(r)))]
        if r.race:
            return [problem("data race", "%s: %d conflicting unsynchronised accesses, first %r" % (what, len(r.race), r.race[0]))]
        hs.append(r.hash)
        out = out or r.out
        workers = max(workers, r.c("threads"), k)
        d = parse(r)
        x = d["value"][0]
        if not v:
            truth, scale = float.fromhex(d["truth"][0]), float.fromhex(d["scale"][0])
            ref, err, vague, parts = float.fromhex(d["ref"][0]), float.fromhex(d["ref"][1]), int(d["ref"][2]), int(d["ref"][3])
        n, lo, hi, top = int(d["calls"][0]), float(d["calls"][1]), float(d["calls"][2]), float.fromhex(d["calls"][3])
        # rounding of abscissas and sums
        rel = 1e-11 + (4e-12 * max(abs(float(o["a"])), abs(float(o["b"]))) / (float(o["b"]) - float(o["a"])) if mode == "fin" else 0)
        eps = rel * scale
        # same for all threads (the order of a sum over a team may vary)
        for y in d["value"][1:]:
            if vague < 2 and not close(x, y, eps + (0 if not vague else goal + err)):
                return [problem("threads get different integrals", "%s: %.17g %.17g" % (what, x, y))]
        a, b = (float(o["a"]), float(o["b"])) if mode == "fin" else (0.0, math.inf) if mode == "pos" else (-math.inf, 0.0) if mode == "neg" else (-math.inf, math.inf)
        tol = 4e-16 * max(abs(a), abs(b)) if mode == "fin" else 0
        if n and not (lo >= a - tol and hi <= b + tol):
            return [problem("integrand called outside the interval", "%s: from %.17g to %.17g" % (what, lo, hi))]
        limit = (1 + 2 * it) * nw * (2 if mode in ("inf", "conv") else 1) * max(1, k)
        if n > limit + 2 * max(1, k):
            return [problem("too many calls of the integrand", "%s: %d, at most %d for %d refinements" % (what, n, limit, it))]
        if mode != "conv" and vague < 2:
            t = rel * (scale + abs(ref)) + (2 * (goal + err) if vague else 0)
            if not close(x, ref, t):
                return [problem("integral differs from adaptive reference", "%s: %.17g, reference %.17g in %d parts, estimated error %.3g" % (what, x, ref, parts, err))]
        if case["fine"] and truth == truth and (mode == "conv" or err < goal):
            t = (1e-6 if mode == "conv" else goal) * (2 if mode in ("inf", "conv") else 1) * 1.5 + eps + 1e-12 * abs(truth)
            if o["fn"] not in ("0", "1", "2", "14"):
                # the estimate may meet the goal by chance, before the peak is resolved
                t = 50 * t + 1e-2 * abs(truth)
            if not close(x, truth, t):
                return [problem("integral is not accurate", "%s: %.17g, true %.17g, goal %.3g" % (what, x, truth, goal))]
            R.note("true integrals compared", 1)
        if v0 is None:
            v0 = x
        elif vague < 2 and not close(x, v0, eps + rel * abs(v0) + (2 * (goal + err) if vague or mode == "conv" else 0)):
            return [problem("integral depends on team or schedule", "%s: %.17g, alone %.17g" % (what, x, v0))]
    if parts > 1 or workers > 1:
        R.sig(hs, out)
    else:
        R.trivial()
    R.sample({"argv": cfg["argv"], "variants": [v["opts"] for v in case["variants"]], "integral": v0})
    return []


def shrink(case, R):
    import shrink as S
    yield from S.simpler(case, R)
