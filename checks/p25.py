"""P25: every run of every program stays within its own memory and ends by itself."""
import gen as G, tools
from common import *
from drive import problem

PROP, LEVEL = "P25", "exploration"
BUILD = tools.BUILD_ALL + [(f, True) for f in FLAVOURS]
BUDGET = {"quick": (9000, 200), "thorough": (400000, 780)}
RULE = ("A case is a run of one of the 13 programs on generated input - three of four cases with edits of command line, model definition, data or document (numbers replaced by extreme, wrong or no numbers, lines and words removed, doubled, exchanged, bytes replaced, "
        "text cut, long lines, equal wavelengths) - first undisturbed, then with seeded schedules (threads and OpenMP teams) and faults (failing allocations, refused threads, LAPACK failures, read and write errors). Every access of the program to the heap is compared with "
        "the blocks alive; the end of the run must be an exit status. non-trivial: the program reached its input; distinct: by input and by schedule.")
NOTE = ("Every load and store of the instrumented program code, every block operation and every release of memory is checked in every simulated run; freed memory is never used again within a run. Seeded sampling of inputs, schedules and faults.")
ASSUME = ["accesses inside shared libraries are seen through block operations of the program and through the guard bytes of each block only; accesses to a wrong place within the same live block, the stack or static data are not recognised",
          "a run that exceeds its limit of steps is not judged here"]

NUMS = ["0", "-0", "-1", "1", "2", "7", "-7", "1e308", "-1e308", "1e-308", "1e300", "-1e-300", "1e999", "nan", "inf", "-inf", "4294967295", "4294967296", "-4294967295", "18446744073709551616", "2147483648", "65536", "1e5", "0x10", "1.", ".5", "", "x", "1,2", "--1", "+", "1e", "1e+", "{", "}", "%", "{ }"]


def mangle(rng, t, marks=None):
    """t with some edits"""
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        ls = t.split("\n")
        j = rng.randrange(len(ls))
        k = rng.randrange(13)
        if k <= 4:      # another number or word
            f = ls[j].split(" ")
            w = [q for q in range(len(f)) if f[q].strip()]
            if w:
                f[rng.choice(w)] = rng.choice(NUMS)
                ls[j] = " ".join(f)
        elif k == 5:
            del ls[j]
        elif k == 6:
            ls.insert(j, ls[j])
        elif k == 7:
            q = rng.randrange(len(ls))
            ls[j], ls[q] = ls[q], ls[j]
        elif k == 8:
            ls.insert(j, rng.choice(["", "   ", "x" * rng.choice([10, 300, 70000]), "{", "}", "0 0 0 0", "1 2 3 4 5 6", "%", "\0", "\xff" * 9, "# 1 2"] + (marks or [])))
        elif k == 9:    # words of a line removed
            f = ls[j].split()
            if f:
                del f[rng.randrange(len(f))]
                ls[j] = " ".join(f)
        elif k == 10:   # the first word of several lines made equal
            f = ls[j].split()
            if f:
                for q in range(j, min(len(ls), j + rng.choice([2, 3, 100]))):
                    g = ls[q].split()
                    if g:
                        ls[q] = " ".join([f[0]] + g[1:])
        t = "\n".join(ls) or "\n"
        if k == 11:
            q = rng.randrange(len(t))
            t = t[:q] + chr(rng.randrange(256)) + t[q + 1:]
        elif k == 12:
            t = t[:rng.randrange(len(t))]
        t = t or "\n"
    return t


def arguments(rng, a):
    a = list(a)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(len(a)) if len(a) > 1 else 0
        q = rng.randrange(6)
        if q < 4 and k:
            # neither a population nor a number of lines to be created without limit
            v = rng.choice(NUMS)
            a[k] = v if k != 3 or v not in ("65536", "1e5") else "40"
        elif q == 4 and k:
            del a[k]
        else:
            a.insert(k + 1, rng.choice(NUMS))
    return [x.replace("\0", "") for x in a]


def gen(rng, i, tier):
    case = tools.any_case(rng, i, tier, **(dict(exact=rng.choice([rng.randrange(19990, 20700), rng.randrange(32700, 66500)]), nsec=1, dim=1, parents=1, population=2, stop=1, poly=1) if i % 100 == 16 else dict(short=1, poly=rng.choice([0, 1])) if rng.random() < 0.15 else dict(poly=rng.choice([5, 8, 12])) if rng.random() < 0.1 else {}))
    c = case["cfg"] or case["tool"]
    t = "model" if case["cfg"] else "stdin"
    if rng.random() < 0.75:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            fs = sorted(c["files"])
            if k < 0.15:
                c["argv"] = arguments(rng, c["argv"])
            elif k < 0.55 and fs:
                f = rng.choice(fs)
                c["files"][f] = mangle(rng, c["files"][f])
            elif c[t]:
                c[t] = mangle(rng, c[t])
    if case["cfg"] and case["prog"] not in FLAVOURS and rng.random() < 0.7:
        case["doc"] = rng.getrandbits(32)
    an = case["prog"] in FLAVOURS
    vs = [{"opts": {}}]
    for _ in range(3):
        v = {"opts": G.environment(rng)}
        if an:
            v["opts"].update(G.schedule(rng, 50000))
            if rng.random() < 0.25:
                v["omp"] = True
                v["opts"].update(team=rng.choice([1, 2, 3, 8]), teamvary=rng.choice([0, 1]))
        k = rng.random()
        if k < 0.6:
            v["fault"] = rng.choice((["alloc", "alloc", "walloc", "lapack", "thread", "eof"] if an else ["alloc", "alloc", "eof"]) + ["writecap"])
            v["place"], v["persist"], v["code"] = rng.random(), rng.choice([0, 0, 1]), rng.choice([-1, 1, 2, 100, 101])
        vs.append(v)
    case["variants"] = vs
    return case


def evaluate(case, R):
    import random
    s = tools.subject(case, R)
    if case.get("doc") is not None:
        rng = random.Random(case["doc"])
        t = s.stdin if isinstance(s.stdin, str) else s.stdin.decode("latin-1")
        s = s.copy()
        s.stdin = mangle(rng, t, ["<command>", "</command>", "<model>", "</model>", "<log>", "</log>", "<data>", "</data>", "<message>", "</message>", "<mesg>"]).encode("latin-1")
    base = None
    for v in case["variants"]:
        o = dict(v["opts"], guard=1, fuel=2 * 10 ** 7)
        fs = []
        if base is not None and v.get("fault"):
            k = v["fault"]
            n = {"alloc": base.c("allocs"), "walloc": base.c("wallocs"), "lapack": 12, "thread": 40, "eof": len(s.stdin), "writecap": len(base.out)}[k]
            at = 1 + int(v["place"] * n)
            fs = {"alloc": [flt("alloc", "", at, v["persist"], 0)], "walloc": [flt("walloc", "", at, v["persist"], 0)], "lapack": [flt("lapack", "", at, v["persist"], v["code"])],
                  "thread": [flt("thread", "", at, v["persist"], 11)], "eof": [flt("readerr", "", at, 0, EIO)], "writecap": [flt("writecap", "", at, 1, ENOSPC)]}[k]
        r = R(s.copy(opts=o, faults=fs, omp=bool(v.get("omp"))))
        if base is None:
            base = r
            R.note("end.%s" % (r.kind if r.kind != "exit" else "exit %d" % r.code))
        if fs:
            R.note("fault." + v["fault"])
        if r.kind not in ("exit", "hang", "fuel"):
            f = fs and "with %s %d of %d " % (v["fault"], fs[0][2], n) or ""
            return [problem("a run ends by %s %s" % (r.kind, r.msg), "%s %son %d bytes of input and %d of data: %s" % (" ".join(s.argv), f, len(s.stdin), sum(len(x) for x in s.files.values()), show(r)))]
        R.sig(s.argv, s.stdin, sorted(s.files.items()), r.hash, r.code)
    R.sample({"program": case["prog"], "command": s.argv, "end": [base.kind, base.code], "variants": case["variants"][1:3]})
    return []
