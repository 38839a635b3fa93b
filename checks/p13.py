"""P13: every run ends; exit status, messages and log rows tell what the search did."""
import math
import gen as G, doc, es
from common import *
from drive import problem
import p05

PROP, LEVEL = "P13", "exploration"
BUILD = [("rec_" + f, False) for f in FLAVOURS] + [(f, False) for f in FLAVOURS]
BUDGET = {"quick": (15000, 200), "thorough": (200000, 780)}
RULE = ("Two of three cases: a generated analysis (goals from 0 to 1000, steps from 0 to 1e6, stop generations from 0 to 60, lines without any influence, chains of references, constant parameters only, costs that turn not-a-number or infinite) run by the real Runner on a recording "
        "model under a seeded schedule and environment. An independent reference of the strategy follows the recorded individuals and decides at each generation whether the goal was reached, the variance underflowed or the stop generation was reached; status, messages, generation and each "
        "log row must agree with it. Each third case: an inadmissible command line or model (25 kinds), which must end with a message and status 8, 16 or 64 without any evaluation. non-trivial: the reference decided the end; distinct: by evaluations and status.")
NOTE = "Every generation of every simulated run is followed by an independent reference of the strategy; seeded sampling of analyses, landscapes, schedules and inadmissible inputs."
ASSUME = ["a search whose rounding errors, ties or undefined costs leave its course undecided is checked for its end, its status, its messages and the number of its evaluations only",
          "parameters whose bounds differ in scale by more than 1e6 are left out: sampling within the bounds then takes unbounded time, which is progress nevertheless",
          "if some, but not all individuals have the same best cost, an underflow may or may not be reported"]

BAD = ["args", "args0", "number", "parents0", "population", "nofile", "nodata", "dupsection", "dupline", "selfref_s", "selfref_l", "cycle_s", "cycle_l", "unknown_s", "unknown_l",
       "shorthead", "badlimit", "badpoly", "noresolution", "badparameter", "missingparameter", "badflag", "nosection", "unterminated", "noopen", "baddata", "nonl"]


def gen(rng, i, tier):
    fl = FLAVOURS[(i // 3) % 4]
    if i % 3 == 2:
        c = G.config(rng, fl, "tiny", stop=1, accuracy=0.5, nsec=rng.choice([1, 2, 2, 3, 3, 4, 5]), comments=False)
        case = bad(rng, c)
        case["cfg"]["flavour"] = "rec_" + fl
        case["variants"] = [{"opts": G.environment(rng)}]
        return case
    k = rng.random()
    o = {}
    if k < 0.15:
        o["flat"] = True
    if k > 0.85:
        o["dim"] = 1
    c = G.config(rng, fl, rng.choice(["tiny", "tiny", "small"]), accuracy=rng.choice([1e-3, 1e-2, 0.03, 0.1, 0.3, 0.5, 1, 1000, 1e-6]), stop=rng.choice([0, 1, 2, 3, 4, 6, 10, 20, 40]),
                 step=rng.choice([0.1, 0.3, 0.5, 1, 2]), trace=rng.choice([0, 1, 1, 1, 2, 3, 5]), **o)
    if rng.random() < 0.2:
        c.argv[4] = rng.choice(["0", "1e-12", "1e-7", "1e-3", "30", "1e-320"])
    if rng.random() < 0.1:
        c.argv[5] = "0"
    if rng.random() < 0.06:
        c.argv[2:4] = rng.choice([["1", "2"], ["1", "5"], ["2", "3"], ["7", "9"], ["10", "30"]])
    cfg = cfg_json(c)
    if rng.random() < 0.05:
        cfg["model"] = constants(cfg["model"])
    cfg["flavour"] = "rec_" + fl
    cfg["model"] = scales(cfg["model"])
    v = {"opts": dict(G.schedule(rng, 40000 * int(c.argv[3])), **G.environment(rng))}
    if rng.random() < 0.12:
        v["faults"] = [["eval", rng.randrange(1, 60), rng.randrange(2), 0, rng.choice([5, 6])]]
    return {"kind": "run", "cfg": cfg, "variants": [v]}


def scales(model):
    """parameters whose bounds are much wider than those of others are held constant"""
    ls = model.split("\n")
    w = {}
    for k, l in enumerate(ls):
        f = l.split("%", 1)[0].split()
        if len(f) == 4 and f[3] == "1" and float(f[1]) != float(f[2]):
            w[k] = abs(float(f[1]) - float(f[2]))
    while w and max(w.values()) > 1e5 * min(w.values()):
        k = max(w, key=w.get) if max(w.values()) > 1e3 else min(w, key=w.get)
        ls[k] = "%s 0 0 0" % ls[k].split()[0]
        w.pop(k)
    return "\n".join(ls)


def constants(model):
    out = []
    for l in model.split("\n"):
        f = l.split("%", 1)[0].split()
        if len(f) == 4 and f[3] == "1":
            l = "%s %s %s 0" % tuple(f[:3])
        out.append(l)
    return "\n".join(out)


def bad(rng, c):
    """an inadmissible command line or model"""
    k = rng.choice(BAD)
    S = c.sections
    files, argv = dict(c.files), list(c.argv)
    s = S[rng.randrange(len(S))]
    L = rng.choice(s["lines"])
    P = G.NPAR[c.flavour]
    text = None
    p = rng.randrange(P)
    if k == "args":
        n = rng.choice([2, 3, 4, 5, 6, 7, 9, 10, 15])
        argv = (argv + ["1"] * 10)[:n]
    elif k == "args0":
        argv = argv[:1]
    elif k == "number":
        argv[rng.randrange(1, 8)] = rng.choice(["", "x", "seed", "-", ".", "NaN%", "--help", "\t"])
    elif k == "parents0":
        argv[2] = "0"
    elif k == "population":
        argv[3] = rng.choice([argv[2], "1", "0"]) if int(argv[2]) > 0 else "0"
    elif k == "nofile":
        files.pop(s["file"])
    elif k == "nodata":
        s["begin"], s["end"] = rng.choice([(1.0, 2.0), (s["end"], s["begin"]), (1e7, 1e8)]) if s["begin"] < s["end"] and s["begin"] > 0 else (1.0, 2.0)
    elif k == "baddata":
        rows = files[s["file"]].split("\n")
        j = rng.randrange(max(1, len(rows) - 1))
        rows.insert(j, rng.choice(["x y z", "1200.0", "12.0 abc", "   ", "wave flux"]))
        files[s["file"]] = "\n".join(rows)
    elif k == "dupsection":
        if len(S) < 2:
            return {"kind": "bad", "bad": "args", "cfg": dict(cfg_json(c), argv=argv[:5])}
        a, b = rng.sample(range(len(S)), 2)
        S[b]["id"] = S[a]["id"]
    elif k == "dupline":
        t = rng.choice(S)["lines"]
        t.insert(rng.randrange(len(t) + 1), dict(L, rows=[list(r) for r in L["rows"]]))
    elif k == "selfref_s":
        s["r"] = ["0", "0", "0", "0", s["id"]]
    elif k == "selfref_l":
        L["rows"][p] = ["0", "0", "0", "0", L["id"]]
    elif k == "cycle_s":
        if len(S) < 2:
            s["r"] = ["0", "0", "0", "0", s["id"]]
        else:
            ring = rng.sample(S, rng.randrange(2, len(S) + 1))
            for j in range(len(ring)):
                ring[j]["r"] = ["0", "0", "0", "0", ring[(j + 1) % len(ring)]["id"]]
    elif k == "cycle_l":
        ls = [l for t in S for l in t["lines"]]
        ls = rng.sample(ls, rng.randrange(1, len(ls) + 1))
        for j in range(len(ls)):
            ls[j]["rows"][p] = ["0", "0", "0", rng.choice("01"), ls[(j + 1) % len(ls)]["id"]]
    elif k == "unknown_s":
        s["r"] = ["0", "0", "0", "0", rng.choice(["nowhere", L["id"], s["id"] + "x"])]
    elif k == "unknown_l":
        L["rows"][p] = ["0", "0", "0", "0", rng.choice(["nowhere", s["id"], L["id"] + "x"])]
    elif k == "badparameter":
        L["rows"][p][rng.randrange(3)] = rng.choice(["x", "abc", "--"])
    elif k == "badflag":
        L["rows"][p][3] = rng.choice(["x", "yes", "7"])
    elif k == "missingparameter":
        L["rows"] = L["rows"][:-1]
        s["lines"] = [L]
    elif k == "noresolution":
        s["r"] = []
        s["lines"] = [L]
    if text is None:
        text = G.render(rng, S, False)
    if k == "shorthead":
        h = [j for j, l in enumerate(text.split("\n")) if "data/" in l]
        ls = text.split("\n")
        j = rng.choice(h)
        ls[j] = "  " + " ".join(ls[j].split()[:rng.choice([0, 3, 4])])
        text = "\n".join(ls)
        # a head cut after the first limits takes its missing numbers from the next line
    elif k == "badlimit":
        text = head(rng, text, 2, "lower")
    elif k == "badpoly":
        text = head(rng, text, 4, "x")
    elif k == "nosection":
        text = rng.choice(["", "\n", "% { x }\n", "text\n", "  \n\n"])
    elif k == "unterminated":
        text = text[:text.rfind("}")]
    elif k == "noopen":
        j = text.find("{")
        text = text[:j] + text[j + 1:]
    elif k == "nonl":
        text = text.replace("{", "{ }\n{", 1)
    cfg = cfg_json(c)
    cfg.update(model=text, files=files, argv=argv)
    return {"kind": "bad", "bad": k, "cfg": cfg}


def head(rng, text, k, by):
    ls = text.split("\n")
    j = rng.choice([j for j, l in enumerate(ls) if "data/" in l])
    f = ls[j].split()
    f[k] = by
    ls[j] = "  " + " ".join(f)
    return "\n".join(ls)


def evaluate(case, R):
    cfg, v = case["cfg"], case["variants"][0]
    r = R(spec(cfg, v))
    if r.kind == "hang":        # once more with all patience: slow is not endless
        r = R(spec(cfg, v, fuel=12 * FUEL, cpu=600))
    what = "%s %s" % (cfg["flavour"][4:], " ".join(cfg["argv"][1:]))
    if case["kind"] == "bad":
        return inadmissible(case, r, what, R)
    cls, text = judge(cfg, r, R)
    if cls:
        return [problem(cls, "%s: %s" % (what, text))]
    R.sample({"command": cfg["argv"], "options": v["opts"], "status": r.code, "messages": (doc.Doc(r.out).message or [])})
    return []


def inadmissible(case, r, what, R):
    k = case["bad"]
    R.sig(k, case["cfg"]["argv"], case["cfg"]["model"])
    R.note("inadmissible." + k)
    what += " (%s)" % k
    if r.kind != "exit":
        return [problem("inadmissible input does not end properly", "%s: %s" % (what, show(r)))]
    if k == "args0":
        if r.code or b"usage" not in r.out:
            return [problem("usage is not shown", "%s: %s" % (what, show(r)))]
        return []
    want = (8,) if k in ("args", "number", "parents0", "population") else (8, 16, 64)
    if r.code not in want or not r.err.strip():
        return [problem("inadmissible input is not rejected", "%s: %s" % (what, show(r)))]
    if r.rec or b"<data>" in r.out or b"<message>" in r.out:
        return [problem("inadmissible input is evaluated", "%s: %s" % (what, show(r)))]
    return []


def admissible(cfg):
    """a model to the letter (the minimiser of failing cases also tries others)"""
    try:
        secs = doc.read_model(cfg["model"], G.NPAR[cfg["flavour"][4:]])
        doc.resolve(secs)
        t = "".join(l.split("%", 1)[0] for l in cfg["model"].split("\n"))
        return bool(secs) and t.count("{") == t.count("}") == len(secs) and all(s["file"] in cfg["files"] for s in secs)
    except (doc.Syntax, ValueError, IndexError):
        return False


def e4(x):
    return "%.4e" % x


def judge(cfg, r, R, keep=None):
    """(class, text) of the first disagreement, or (None, '')"""
    a = cfg["argv"]
    mu, lam, step, acc, stop, mod = int(a[2]), int(a[3]), float(a[4]), float(a[5]), int(a[6]), int(a[7])
    if r.kind != "exit":
        return "a run does not end properly", show(r)
    if r.code == 16 and b"continuum(): Error" in r.err:
        R.trivial()
        R.note("no continuum")
        return None, ""
    if r.code not in (0, 1, 2) and not admissible(cfg):
        R.trivial()
        return None, ""
    if r.code not in (0, 1, 2):
        return "an admissible run is rejected", show(r)
    d = doc.Doc(r.out)
    if not d.complete or d.message is None or d.logtext is None:
        return "no complete document", show(r)
    msg = "\n".join(d.message)
    opt, under = "completed successfully" in msg, "underflow" in msg
    m = re.search(r"stopped at generation (\d+)$", msg, re.M)
    if (opt, under, bool(m)) != {0: (True, False, False), 1: (False, True, True), 2: (False, False, True)}[r.code]:
        return "status and messages disagree", "status %d, messages %r" % (r.code, msg)
    rows = []
    for l in d.logtext:
        f = l.split()
        if len(f) != 4 or not f[0].isdigit():
            return "log row", "malformed row %r" % l
        rows.append(f)
    if opt and not rows:
        return "log row", "no final row of an optimized run"
    last = int(rows[-1][0]) if opt else int(m.group(1))
    if last > stop or r.code == 2 and last != stop:
        return "wrong generation", "status %d at generation %d with stop generation %d" % (r.code, last, stop)
    want = [g for g in range(1, last + 1) if mod and g % mod == 0 and not (under and g == last) or opt and g == last]
    if [int(f[0]) for f in rows] != want:
        return "log row", "rows of generations %s instead of %s" % ([int(f[0]) for f in rows], want)
    # the evaluations
    recs = list(p05.records(r.rec))
    ys = {e["call"]: e["y"] for e in recs if e["type"] == 2}
    begins = [e for e in recs if e["type"] == 1]
    secs, bs = p05.bounds(cfg["model"], G.NPAR[cfg["flavour"][4:]])
    n = max(1, len(bs))
    codes = {}
    for e in begins:
        if e["call"] not in ys:
            ys[e["call"]] = math.nan
    nind = last * lam
    rest = len(begins) - nind - len(rows) - 1
    if (rest != 0 if not opt else (rest < 1 + 2 * n or rest % 2 == 0)):
        return "wrong number of evaluations", "%d evaluations, %d generations of %d individuals, %d log rows, status %d" % (len(begins), last, lam, len(rows), r.code)
    if any(len(e["x"]) != n for e in begins):
        return "wrong number of parameters", "%d" % n
    # the course of the search
    if not bs:
        if r.code != (2 if stop == 0 else 1) and not any(y != y for y in ys.values()):
            return "wrong status", "no parameter is free, but the status is %d" % r.code
        R.sig(cfg["model"], a, r.code)
        return None, ""
    S = es.Strategy(n, mu, lam, step, acc, [b[0] for b in bs], [b[1] for b in bs])
    p, gi, verdict, ri = 0, 0, "continue", 0
    undefined = any(y != y for y in ys.values())
    if undefined:
        verdict = "maybe"
    while gi < last and verdict != "maybe":
        part = begins[p:p + lam]
        p += lam
        gi += 1
        verdict = S.generation([e["x"] for e in part], [ys[e["call"]] for e in part])
        if verdict == "maybe":
            break
        end = gi == last
        if end and opt and verdict not in ("optimized", "close"):
            return "optimized although the goal was not reached", "generation %d: %s" % (gi, verdict)
        if end and under and verdict != "underflow":
            return "underflow although the costs differ", "generation %d: %s" % (gi, verdict)
        if end and r.code == 2 and verdict in ("optimized", "underflow"):
            return "stopped although the search had ended", "generation %d: %s" % (gi, verdict)
        if not end and verdict in ("optimized", "underflow"):
            return "the search goes on after its end", "generation %d of %d: %s" % (gi, last, verdict)
        if ri < len(rows) and int(rows[ri][0]) == gi:
            f = rows[ri]
            ri += 1
            e = begins[p]
            p += 1
            if any(x != y for x, y in zip(e["x"], S.x)):
                return "log row of another state", "generation %d: cost evaluated at %r instead of %r" % (gi, e["x"], S.x)
            y = ys[e["call"]]
            if float(f[1]) != float(e4(y)) and not (y != y and float(f[1]) != float(f[1])):
                return "log row of another state", "generation %d: cost %s instead of %s" % (gi, f[1], e4(y))
            for t, w in ((f[2], S.s * S.d[0]), (f[3], S.s * S.d[-1])):
                if abs(float(t) - w) > abs(w) * (6e-5 + 1e3 * S.err + (1e-2 if S.err > 1e-9 else 0)):
                    return "log row of another state", "generation %d: step %s instead of %s" % (gi, t, e4(w))
    if verdict == "maybe":
        R.trivial()
        return None, ""
    e = begins[p]
    p += 1
    if verdict != "underflow" and any(x != y for x, y in zip(e["x"], S.x)):
        return "final cost of another state", "evaluated at %r instead of %r" % (e["x"], S.x)
    R.sig(cfg["model"], a, r.code, r.hash)
    R.note("followed.generations", gi)
    R.note("end.%d" % r.code)
    if keep is not None:
        keep.update(S=S, x=e["x"], y=ys[e["call"]], tail=[(q["x"], ys[q["call"]]) for q in begins[p:]], opt=opt)
    return None, ""
