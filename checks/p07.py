"""P07: a failing allocation never changes a result silently and never crashes a program."""
import gen as G, tools
from common import *
from drive import problem

PROP, LEVEL = "P07", "exploration"
BUILD = tools.BUILD_ALL
BUDGET = {"quick": (4000, 200), "thorough": (200000, 780)}
RULE = ("A case is a run of one of the 13 programs on generated input, first undisturbed and then with the n-th allocation failing (once, from then on, or only allocations above a size) at seeded places, every place for short runs, or with a limited heap; "
        "analysis programs also under seeded schedules; non-trivial: the failure was injected; distinct: by program, place and outcome.")
NOTE = "Seeded fault injection into malloc and operator new of real runs; trusts that the allocator seam sees every allocation of the program (shared libraries included)."
ASSUME = ["a failed allocation is reported by a null pointer or std::bad_alloc; overcommit kills are not allocation failures"]


def gen(rng, i, tier):
    case = tools.any_case(rng, i, tier)
    t = case["tool"]
    if t and rng.random() < 0.15:       # input that must be rejected
        if t["files"]:
            t["files"]["unc.dat"] = "\n".join(t["files"]["unc.dat"].rstrip().split("\n")[:-1]) + "\n"
        else:
            t["stdin"] = t["stdin"].rstrip() + "\nx y z\n"
    vs = []
    for k in range(14):
        v = {"place": rng.random(), "persist": rng.choice([0, 0, 1]), "min": rng.choice([0, 0, 0, 0, 200, 4000])}
        if rng.random() < 0.3 and case["prog"] in FLAVOURS:
            v["opts"] = G.schedule(rng, 50000)
        if rng.random() < 0.1:
            v["limit"] = rng.random()
        vs.append(v)
    case["variants"] = vs
    case["all"] = rng.random() < 0.3
    return case


def evaluate(case, R):
    s = tools.subject(case, R)
    base = R(s)
    if base.kind != "exit":
        R.note("base.%s" % base.kind)
        return []
    n = base.c("allocs")
    ps = []
    todo = []
    for v in case["variants"]:
        if "at" in v:
            todo.append((v["at"], v))
        else:
            todo.append((1 + int(v["place"] * n), v))
    if case["all"] and n <= 150 and len(case["variants"]) > 1:
        todo += [(k, {"at": k, "persist": p, "min": 0}) for k in range(1, n + 1) for p in (0, 1)]
    for k, v in todo:
        o = dict(v.get("opts") or {})
        f = [flt("alloc", "", k, v["persist"], v["min"])]
        if v.get("limit") is not None:
            f = []
            o["heaplimit"] = int(2000 + v["limit"] * 200000)
        r = R(s.copy(opts=o, faults=f))
        hit = r.c("fault.alloc") or r.c("fault.heaplimit")
        t = "%s: allocation %d of %d fails%s: %s" % (tools.label(case), k, n, " and all later" if v["persist"] else "", show(r))
        if r.kind == "exit" and (r.code, r.out, r.err) == (base.code, base.out, base.err):
            pass
        elif r.kind == "fuel" or r.kind == "hang" and not hit:
            R.note("no answer")
        elif r.kind != "exit":
            ps.append(problem("a failed allocation ends in " + r.kind, t))
        elif r.code in (0, 1, 2):
            ps.append(problem("a failed allocation changes the result", t + " " + diff(base.out, r.out)))
        elif not r.err.strip():
            ps.append(problem("a failed allocation is not reported", t))
        elif not hit:
            ps.append(problem("failure without injected fault", t))
        if hit:
            R.sig(case["prog"], k, v["persist"], r.code, r.hash, len(base.out))
            R.note("program." + case["prog"])
        else:
            R.trivial()
        if ps:
            break
    R.sample({"program": case["prog"], "command": s.argv, "allocations": n, "variants": case["variants"][:3]})
    return ps
