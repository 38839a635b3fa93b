"""P06: a failing worker, thread start or decomposition is reported; never a crash, a hang or a result."""
import gen as G, doc
from common import *
from drive import problem
import p04

PROP, LEVEL = "P06", "exploration"
BUILD = [(f, o) for f in FLAVOURS for o in (False, True)] + [("rec_" + f, o) for f in FLAVOURS for o in (False, True)] + [("opt", False), ("opt", True)]
BUDGET = {"quick": (2500, 200), "thorough": (100000, 780)}
RULE = ("A case is a generated analysis or a generated optimisation, run undisturbed and then, under seeded schedules, with a failure at a seeded place: an exception of one of four kinds from the n-th evaluation (once, or from then on, so that "
        "several workers fail), the n-th thread refused, no more than k threads at a time, the n-th eigenvalue decomposition failing with positive (before or after the work is done) or negative status or by an exception, the n-th allocation of a worker failing, a background continuum that cannot be determined; threads and OpenMP builds; "
        "non-trivial: the failure was injected; distinct: by fault, place and schedule hash.")
NOTE = ("Fault injection at seeded places of real runs (evaluations, thread creation, LAPACK status) under seeded schedules; the outcome of every run is compared with the kind of the injected failure.")
ASSUME = ["a refused thread may either be reported (16) or be survived with the undisturbed result"]
KINDS = {1: 8, 2: 16, 3: 64, 4: 64, 5: 64, 6: 16, 7: 8, 8: 16, 9: 64, 11: 16, 12: 8, 13: 16, 14: 64}
LAPACK = {100: 64, 101: 64, 102: 8, 103: 16}


def gen(rng, i, tier):
    if i % 5 == 4:
        argv = p04.problem_argv(rng, free=0, bounds=rng.choice([0, 1, 2, 5]))
        vs = []
        for k in range(4):
            o = G.schedule(rng, 20000)
            v = {"opts": o, "omp": rng.random() < 0.3, "throw": rng.randrange(1, 10), "at": rng.random(), "persist": rng.random() < 0.5}
            o["team"] = rng.choice([1, 2, 5])
            vs.append(v)
        return {"kind": "opt", "cfg": {"flavour": "opt", "argv": argv, "model": "", "files": {}, "n": 0}, "variants": vs}
    fl = FLAVOURS[i % 4]
    sing = rng.random() < 0.12
    c = G.config(rng, fl, rng.choice(["tiny", "small"]), accuracy=rng.choice([0.5, 0.1, 0.03]), stop=rng.choice([1, 2, 3, 5, 12]))
    cfg = cfg_json(c)
    vs = []
    for k in range(5):
        o = G.schedule(rng, 30000 * int(c.argv[3]))
        v = {"opts": o, "place": rng.random(), "persist": rng.random() < 0.5}
        f = rng.choice(["eval", "eval", "eval", "thread", "thread", "maxlive", "lapack", "lapack", "walloc", "walloc"])
        v["fault"] = f
        v["code"] = rng.choice([1, 2, 3, 4, 11, 12, 13, 14]) if f == "eval" else rng.choice([1, 2, 7, -1, -3, 100, 101, 102, 103]) if f == "lapack" else 0 if f == "walloc" else 11
        if f in ("eval", "lapack", "walloc") and rng.random() < 0.3:
            v["omp"] = True
            o["team"] = rng.choice([1, 2, 5])
        if sing:
            v["fault"] = "continuum"
        vs.append(v)
    if sing:
        # more polynomials than data points
        ls = cfg["model"].split("\n")
        for k, l in enumerate(ls):
            f = l.split()
            if len(f) >= 5 and f[1].startswith("data/"):
                n = sum(1 for r in c.sections[[s["id"] for s in c.sections].index(f[0])]["rows"])
                f[4] = str(n + rng.randrange(1, 5))
                ls[k] = " ".join(f)
                break
        cfg["model"] = "\n".join(ls)
    return {"kind": "singular" if sing else "run", "cfg": cfg, "variants": vs}


def is_result(out):
    t = out.decode("latin-1")
    return "<message>" in t or "</data>" in t or "</log>" in t


def failed(ps, what, cfg, r, codes, out):
    """the outcome of a run in which a failure was injected"""
    t = "%s: %s: %s" % (" ".join(cfg["argv"]), what, show(r))
    if r.kind != "exit":
        ps.append(problem("a failure ends in " + r.kind, t))
    elif r.code not in codes:
        ps.append(problem("wrong exit status after a failure", t + ", expected %s" % sorted(codes)))
    elif not r.err.strip():
        ps.append(problem("no message after a failure", t))
    elif is_result(r.out):
        ps.append(problem("a result after a failure", t))
    elif out is not None and not out.startswith(r.out):
        ps.append(problem("output before a failure differs", t + " " + diff(out, r.out)))
    elif r.c("live") > 1:
        ps.append(problem("workers still running at the end", t + ", %d" % (r.c("live") - 1)))


def evaluate(case, R):
    cfg = case["cfg"]
    ps = []
    if case["kind"] == "opt":
        base = R(spec(cfg))
        n = int(dict(l.split(" ", 1) for l in base.out.decode().split("\n") if l.startswith("ref")).get("ref", "full 0 0").split()[2])
        for v in case["variants"]:
            k = int(v["at"] * (n + 8)) + 1
            r = R(spec(dict(cfg, argv=cfg["argv"] + ["throw=%d" % v["throw"], "at=%d" % (-k if v["persist"] else k)]), v))
            if r.out.startswith(b"x ") and r.code == 0:
                R.trivial()
                continue
            failed(ps, "exception %d from evaluation %d%s" % (v["throw"], k, " on" if v["persist"] else ""), cfg, r, {KINDS[v["throw"]]}, None)
            R.sig(r.hash, k, v["throw"])
            R.note("fault.eval")
            if ps:
                return ps
        return ps
    rec = dict(cfg, flavour="rec_" + cfg["flavour"])
    base = R(spec(rec))
    if case["kind"] == "singular":
        if (base.kind, base.code) == ("exit", 16):
            for v in case["variants"]:
                r = R(spec(rec if v.get("omp") else cfg, v))
                failed(ps, "singular continuum", cfg, r, {16}, base.out)
                if r.outcome() != base.outcome() and not ps:
                    ps.append(problem("failure depends on the schedule", "%s: %s instead of %s" % (brief(cfg), show(r), show(base))))
                R.sig(r.hash, "continuum")
                R.note("fault.singular_continuum")
        elif base.kind == "exit":
            R.trivial()
        else:
            ps.append(problem("a singular continuum ends in " + base.kind, "%s: %s" % (brief(cfg), show(base))))
        return ps
    if base.kind != "exit" or base.code > 2:
        R.note("base." + base.kind)
        return ps
    obase = None
    for v in case["variants"]:
        f, k = v["fault"], 0
        s = None
        if f == "eval":
            total = len([1 for q in records(base.rec)]) // 2
            k = 1 + int(v["place"] * total)
            s = spec(rec, dict(v, faults=[flt("eval", "", k, v["persist"], v["code"])]))
            codes = {KINDS[v["code"]]}
        elif f == "thread":
            k = 1 + int(v["place"] * base.c("threads"))
            s = spec(cfg, dict(v, faults=[flt("thread", "", k, v["persist"], 11)]))
            codes = {16}
        elif f == "maxlive":
            k = 1 + int(v["place"] * int(cfg["argv"][3]))
            s = spec(cfg, v, maxthreads=k)
            codes = {16}
        elif f == "walloc":
            # an allocation of a worker of the unchanged program
            b = base
            if v.get("omp"):
                b = R(spec(cfg, dict(v, faults=[])))
            k = 1 + int(v["place"] * b.c("wallocs"))
            s = spec(cfg, dict(v, faults=[flt("walloc", "", k, v["persist"], 0)]))
            codes = {64}
        else:
            k = 1 + int(v["place"] * base.c("lapack.calls"))
            s = spec(cfg, dict(v, faults=[flt("lapack", "", k, v["persist"], v["code"])]))
            codes = {16} if 0 < v["code"] < 100 else {8} if v["code"] < 0 else {LAPACK[v["code"]]}
        r = R(s)
        what = "%s fault at %d%s" % (f, k, " and later" if v["persist"] else "")
        hit = r.c("fired.0") if s.faults else r.c("fault.thread_limit")
        b = base
        if v.get("omp"):
            obase = obase or R(spec(rec, {"omp": True}, team=1))
            b = obase
        if not hit or (f in ("thread", "maxlive") and r.kind == "exit" and r.code == base.code):
            R.trivial()
            if r.outcome() != b.outcome() and not v.get("omp"):
                ps.append(problem("another result after a failure", "%s: %s: %s instead of %s" % (brief(cfg), what, show(r), show(base))))
        else:
            failed(ps, what, cfg, r, codes, b.out)
            R.sig(r.hash, f, k, v["code"])
        if ps:
            return ps
    R.sample({"argv": cfg["argv"], "kind": case["kind"], "variants": case["variants"]})
    return ps


from p05 import records
