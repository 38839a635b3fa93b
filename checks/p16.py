"""P16: applying a command to files never loses their contents."""
import hashlib, os, shutil
import proc
from drive import problem

PROP, LEVEL = "P16", "exploration"
BUILD = []
BUDGET = {"quick": (800, 200), "thorough": (60000, 780)}
RULE = ("A case is a set of 1-5 files (names with blanks and special characters, absolute and relative, in the same or other directories, same base names, empty and large, with unrelated and stale files beside them) and a command with or without an option, handed to the script under the real shell. After an undisturbed run each "
        "command the script ran is listed, and 12 seeded disturbances follow: at a seeded execution the command fails before, within (after a seeded number of bytes or operands) or after its effect, or the whole script is killed there; all executions for a share of the cases. The tree is judged after each run. "
        "non-trivial: a disturbance took effect; distinct: by files, execution and disturbance.")
NOTE = "The real script under the real shell; every command it runs is a stand-in that performs the effect in a scratch directory as an unprivileged user and fails or kills as the seed says."
ASSUME = ["each file is given once, and none is named like the backup or target of another", "rename is atomic and completed effects are durable (a kill of the processes, no power failure)"]
REAL = ["src/main/scripts/foreach from the working tree, under the real sh"]
STUB = ["cp, mv, rm and all other commands, and the command applied: stand-ins with the effect of the real ones"]
ACTIONS = ["fail", "kill", "afterkill", "afterfail", "partkill", "partfail", "partkill", "partfail"]


def prepare():
    proc.stub()


def gen(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    names, files = [], {}
    dirs = rng.choice([[""], [""], ["", "d/"], ["d/", "e f/"], ["d/", "e/", ""]])
    while len(names) < n:
        b = rng.choice(["a", "b.dat", "spectrum.txt", "x y", "a.backup.dat", "q*", "$HOME", "tt", "w'", "s1.html"]) + rng.choice(["", "", "1", "2"])
        f = rng.choice(dirs) + b
        if f not in files:
            names.append(f)
            files[f] = text(rng)
    other = {}
    for f in names:
        b = os.path.basename(f)
        # the same base name in the working directory and elsewhere
        for o in (b, "d/" + b):
            if o not in files and rng.random() < 0.4:
                other[o] = text(rng)
        # names that temporary files might have
        for o in (b + ".target", b + ".backup", b + ".tmp", "target", "backup", b + "~"):
            if o not in files and not any(o in (q + ".target", q + ".backup") for q in names) and rng.random() < 0.15:
                other[o] = text(rng)
    stale = {}
    for f in names:
        if rng.random() < 0.1:
            stale[f + ".backup"] = text(rng)
    tok = {"files": files, "names": names, "other": other, "stale": {k: v for k, v in stale.items() if k not in files and k not in other},
           "abs": [rng.random() < 0.25 for _ in names], "option": rng.choice([None, None, "-x", "--velocity=3"])}
    tok["variants"] = "all" if rng.random() < (0.05 if tier == "quick" else 0.3) else [[rng.random(), rng.choice(ACTIONS), rng.random()] for _ in range(12)]
    return tok


def text(rng):
    n = rng.choice([0, 1, 5, 40, 40, 300, 20000])
    return "".join(rng.choice("abc 01.\n") for _ in range(n))


def output(s, opt):
    b = s.encode()
    return b"<%d>" % (1 if opt else 0) + bytes(x if x == 10 else x ^ 1 for x in b) + b"</>"


def execute(case, plan, S):
    """-> dict of status, executions, tree"""
    allf = dict(case["files"], **case["other"], **case["stale"])
    S.fresh({f: t.encode() for f, t in allf.items()}, {"plan": plan.encode()}, ["d", "e", "e f"])
    args = [os.path.join(S.path("w"), f) if a else f for f, a in zip(case["names"], case["abs"])]
    st, o, e = S.run(["sh", S.path("foreach"), "convert" + (" " + case["option"] if case["option"] else "")] + args)
    return {"status": st, "log": S.log(), "tree": S.tree(), "err": e, "escaped": S.escaped()}


def evaluate(case, R):
    S = proc.Scratch()
    try:
        shutil.copy(os.path.join(proc.SCRIPTS, "foreach"), S.path("foreach"))
        S.command("convert")
        base = R.external("", lambda: execute(case, "", S))
        ps = judge(case, base, None)
        if ps:
            return ps
        n = len(base["log"])
        vs = case["variants"]
        if vs == "all":
            vs = [[(j + 0.5) / n, a, q] for j in range(n) for a, q in (("fail", 0), ("kill", 0), ("afterkill", 0), ("afterfail", 0), ("partkill", 0.3), ("partfail", 0.6))]
        for p, a, q in vs:
            j = int(p * n)
            cmd = base["log"][j].split(" ")[0]
            size = 1 + max(len(t) for t in case["files"].values())
            k = int(q * 3) if cmd == "rm" else int(q * size)
            plan = "%d %s %d\n" % (j, a, k)
            r = R.external(plan, lambda: execute(case, plan, S))
            ps = judge(case, r, (cmd, base["log"][j], a, k))
            if ps:
                return ps
            R.note("fault.%s.%s" % (a, cmd))
            R.sig(case["names"], len(case["other"]), j, a, k)
        R.sample({"files": case["names"], "executions": base["log"][:12], "disturbances": vs[:4]})
        return []
    finally:
        S.close()


def judge(case, r, fault):
    ps = []
    t = r["tree"]
    what = "foreach convert %s %s" % (case["option"] or "", " ".join(repr(n) for n in case["names"]))
    if fault:
        what += " with %s at %r%s" % (fault[2], fault[1].replace("/tmp/", "")[:80], "" if not fault[2].startswith("part") else " after %d" % fault[3])
    bad = lambda c, x: ps.append(problem(c, "%s: %s (status %r, %r)" % (what, x, r["status"], r["err"][:120])))
    if r["escaped"]:
        bad("an operation outside of the files", "recorded")
    if r["status"] is None:
        bad("no end", "timeout")
    new = {f: output(x, case["option"]) for f, x in case["files"].items()}
    done = all(t.get(f) == new[f] for f in case["names"])
    for f in case["names"]:
        o = case["files"][f].encode()
        if f not in t or t[f] not in (o, new[f]):
            bad("a file holds neither its contents nor the output for it", "%r" % f)
        if t.get(f) != o and t.get(f + ".backup") != o and not done:
            bad("the contents of a file are lost", "%r" % f)
    for f, x in case["other"].items():
        if t.get(f) != x.encode():
            bad("another file is changed", "%r" % f)
    if r["status"] == 0:
        if not done:
            bad("success although not all files were processed", "")
        left = sorted(set(t) - set(case["files"]) - set(case["other"]))
        if left:
            bad("files are left behind", "%r" % left)
    elif fault is None:
        bad("an undisturbed run fails", "")
    return ps


def shrink(case, R):
    import copy
    vs = case["variants"]
    if vs == "all" or len(vs) > 1:
        for v in (vs if vs != "all" else []):
            yield dict(copy.deepcopy(case), variants=[v])
    for k, f in enumerate(case["names"]):
        if len(case["names"]) > 1:
            c = copy.deepcopy(case)
            c["names"].pop(k)
            c["abs"].pop(k)
            c["files"].pop(f)
            c["stale"].pop(f + ".backup", None)
            yield c
        if len(case["files"][f]) > 5:
            c = copy.deepcopy(case)
            c["files"][f] = "abc"
            yield c
    for q in ("other", "stale"):
        if case[q]:
            yield dict(copy.deepcopy(case), **{q: {}})
    if case["option"]:
        yield dict(copy.deepcopy(case), option=None)
