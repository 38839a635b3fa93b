"""P18: erun succeeds only if the run reproduced the expected values."""
import os, random, re, shutil
import gen as G, doc, proc
from common import *
from drive import problem

PROP, LEVEL = "P18", "exploration"
BUILD = [(f, False) for f in FLAVOURS]
BUDGET = {"quick": (1000, 200), "thorough": (60000, 780)}
RULE = ("A case is the document of a simulated analysis, 0-4 expected values (costs of its sections, others that are close, or what other cells show), and a document before with the same or other costs, a target (new, stale with a complete document, not writable, in a missing directory). The script runs under the real shell on stand-ins for the analysis program and the extraction tools that "
        "write what the real ones do; after the undisturbed run, 14 seeded disturbances follow: a stage (program, ecom, emod, elog, tee, a search) fails before reading, or dies after a seeded number of bytes with status 0, status 1 or by a signal, one or two stages at once; cuts within and next to the cells of the expected values for a share. "
        "Judged: status against the cells in the target, target against the bytes the program wrote. non-trivial: a stage was disturbed; distinct: by document, values and disturbance.")
NOTE = "The real script under the real shell; the stages are stand-ins that die where the seed says; status and target are judged after each run."
ASSUME = ["stages take all of their input before they act, so that the outcome does not depend on their relative speed"]
REAL = ["src/main/scripts/erun from the working tree, under the real sh; grep", "the analysis program that made the document (in the simulator)"]
STUB = ["analysis program, ecom, emod, elog and tee of the pipeline: stand-ins with the output of the real ones"]


def prepare():
    proc.stub()


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    c = G.config(rng, fl, "tiny", stop=rng.choice([1, 2, 4]), parents=2, population=3, accuracy=0.1, trace=1, nsec=rng.choice([1, 2, 3]), comments=rng.random() < 0.3)
    return {"cfg": cfg_json(c), "values": [[rng.random(), rng.choice(["ok", "ok", "ok", "ok", "ok", "near", "log", "short", "cell", "cell"])] for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))],
            "escape": rng.random() < 0.3, "prior": rng.choice([0, 0, 1, 2]) and rng.getrandbits(31), "target": rng.choice(["new", "new", "stale", "stale", "readonly", "nodir", "blank"]),
            "variants": [fault(rng) + (fault(rng) if rng.random() < 0.2 else []) for _ in range(14)]}


def prior(out, d, seed):
    """the document before: costs of some sections and some digits of the message differ"""
    if not seed:
        return out
    rng, t = random.Random(seed), out
    for s in d.sections:
        c = s[6].replace("<strong>", "").replace("</strong>", "")
        j = [k for k, x in enumerate(c) if x in "123456789"]
        if j and rng.random() < 0.8:
            k = rng.choice(j)
            n = c[:k] + rng.choice([x for x in "123456789" if x != c[k]]) + c[k + 1:]
            t = t.replace(b"<td><strong>" + c.encode() + b"</strong></td>", b"<td><strong>" + n.encode() + b"</strong></td>")
    return t


def fault(rng):
    st = rng.choice(["analysis", "analysis", "analysis", "ecom", "emod", "elog", "tee", "tee", "grep"])
    if st == "grep":
        return [["grep", rng.randrange(1, 4), "fail", 0.0]]
    return [[st, 1, rng.choice(["fail", "partok", "partok", "partfail", "partsignal", "afterfail"]), rng.choice([rng.random(), rng.random(), 0.0, 1.0, 2.0 + rng.random()])]]


def evaluate(case, R):
    cfg = case["cfg"]
    r = R(spec(cfg))
    if r.kind != "exit" or r.code > 2:
        R.trivial()
        return []
    out = r.out
    d = doc.Doc(out)
    if not d.complete or d.command is None:
        R.trivial()
        return []
    # the document that is run again may hold other values than the new one
    old = prior(out, d, case.get("prior"))
    costs = [s[6].replace("<strong>", "").replace("</strong>", "") for s in d.sections]
    log = d.logtext[-1].split()[1] if d.logtext else "1.0"
    if old != out:
        costs += [s[6].replace("<strong>", "").replace("</strong>", "") for s in doc.Doc(old).sections]
    vals, cells = [], []
    for u, kind in case["values"]:
        v = costs[int(u * len(costs))]
        if kind == "near":
            v = v[:-1] + str((int(v[-1]) + 1) % 10) if v[-1].isdigit() else v
        elif kind == "log":
            v = log
        elif kind == "short":
            v = v[1:] if len(v) > 4 else v + "0"
        elif kind == "cell":
            # what another cell shows
            t = [x for x in re.findall(r"<td>(?:<[^<>]*>)*([0-9.]+)<", out.decode("latin-1")) if x not in costs]
            v = t[int(u * len(t))] if t else v
        cells.append(v)
        vals.append(v.replace(".", "\\.") if case["escape"] else v)
    ctl = {"analysis.in": ("\n".join(d.model) + "\n").encode("latin-1"), "analysis.out": out, "analysis.args": "".join(a + "\n" for a in cfg["argv"][1:]).encode(),
           "emod.in": old, "ecom.in": old, "elog.in": out, "emod.out": ("\n".join(d.model) + "\n").encode("latin-1"), "ecom.out": (" ".join(cfg["argv"]) + "\n").encode(),
           "elog.out": ("\n".join(d.logtext) + "\n").encode() if d.logtext else b""}
    S = proc.Scratch()
    try:
        shutil.copy(os.path.join(proc.SCRIPTS, "erun"), S.path("bin/erun"))
        for t in ("ecom", "emod", "elog"):
            S.command(t)
        # positions of the ends of the cells of interest
        cuts = []
        for v in cells or costs:
            j = out.find(b"<td><strong>" + v.encode() + b"</strong></td>")
            if j >= 0:
                e = j + len(v) + 26
                cuts += [j, j + 12, j + 13, e - 10, e - 1, e]
        for f in [None] + case["variants"]:
            plan = ""
            for st, occ, act, q in f or []:
                n = {"analysis": len(out), "tee": len(out), "ecom": len(ctl["ecom.out"]), "emod": len(ctl["emod.out"]), "elog": len(ctl["elog.out"]), "grep": 0}[st]
                k = cuts[int((q - 2) * len(cuts))] if q >= 2 and cuts and st in ("analysis", "tee") else int(min(q, 1.0) * n)
                plan += "%s.%d %s %d\n" % (st, occ, act, k)
            x = R.external(plan, lambda: execute(case, cfg, plan, ctl, old, vals, S))
            ps = judge(case, x, plan, out, old, cells, vals, f)
            if ps:
                return ps
            for st, occ, act, q in f or []:
                R.note("fault.%s.%s" % (act, st))
            R.note("status.%s" % x["status"])
            if f:
                R.sig(out, vals, plan)
        R.sample({"command": cfg["argv"], "values": vals, "target": case["target"], "disturbances": case["variants"][:3]})
        return []
    finally:
        S.close()


def execute(case, cfg, plan, ctl, old, vals, S):
    files = {"result.html": old}
    tg = "target.html" if case["target"] != "nodir" else "missing/target.html"
    if case["target"] == "blank":
        tg = "the target.html"
    if case["target"] in ("stale", "readonly"):
        files[tg] = old
    S.fresh(files, dict(ctl, plan=plan.encode()))
    S.command(cfg["argv"][0][2:], "w")
    if case["target"] == "readonly":
        os.chmod(S.path("w/" + tg), 0o444)
    st, o, e = S.run(["sh", S.path("bin/erun"), "result.html", tg] + vals)
    t = S.tree()
    try:
        wrote = open(S.path("ctl/wrote"), "rb").read()
    except FileNotFoundError:
        wrote = b""
    return {"status": st, "log": sorted(S.log()), "tree": t, "err": e, "out": o, "target": t.get(tg), "wrote": wrote, "escaped": S.escaped(), "result": t.get("result.html")}


def judge(case, x, plan, out, old, cells, vals, f):
    ps = []
    bad = lambda c, t: ps.append(problem(c, "erun result.html (%s target) %s%s: %s (status %r, stderr %r)" % (case["target"], " ".join(vals), " with " + plan.replace("\n", ", ") if plan else "", t, x["status"], x["err"][:160])))
    if x["status"] is None:
        bad("no end", "timeout")
        return ps
    if x["escaped"]:
        bad("an operation outside of the files", "recorded")
    t = x["target"]
    if x["result"] != old:
        bad("the given document is changed", "")
    missing = [v for v in cells if t is None or b"<td><strong>" + v.encode() + b"</strong></td>" not in t]
    if x["status"] == 0 and missing:
        bad("success although an expected value is missing", "%r" % missing)
    stages = {q[0] for q in f or []}
    if case["target"] in ("readonly", "nodir"):
        if x["status"] == 0:
            bad("success although the target could not be written", "")
        return ps
    if "tee" not in stages and (t or b"") != x["wrote"]:
        bad("the target is not what the program wrote", "%d bytes of %d" % (len(t or b""), len(x["wrote"])))
    if "tee" in stages and not x["wrote"].startswith(t or b""):
        bad("the target is not what the program wrote", "")
    if not f:
        absent = [v for v in cells if b"<td><strong>" + v.encode() + b"</strong></td>" not in out]
        if t != out:
            bad("the target is not what the program wrote", "undisturbed")
        if (x["status"] == 0) != (not absent):
            bad("an undisturbed run has the wrong status", "absent values %r" % absent)
    return ps


def shrink(case, R):
    import copy
    vs = case["variants"]
    if len(vs) > 1:
        for v in vs:
            yield dict(copy.deepcopy(case), variants=[v])
    elif vs and len(vs[0]) > 1:
        for q in vs[0]:
            yield dict(copy.deepcopy(case), variants=[[q]])
    if len(case["values"]) > 1:
        for v in case["values"]:
            yield dict(copy.deepcopy(case), values=[v])
    if case["target"] != "new":
        yield dict(copy.deepcopy(case), target="new")
