"""P05: every individual and every reported parameter vector lies within the prior bounds."""
import struct
import gen as G, doc
from common import *
from drive import problem
import p04

PROP, LEVEL = "P05", "exploration"
BUILD = [("opt", False)] + [("rec_" + f, False) for f in FLAVOURS]
BUDGET = {"quick": (3000, 200), "thorough": (200000, 780)}
RULE = ("Odd cases: a generated optimisation (bounds around, beside, at, 1e-6 narrow, a few representable numbers, one-sided or absent; 14 objectives including not-a-number and infinite ones) under a seeded schedule, optionally with "
        "an exception from some evaluation on; every recorded individual and the result are compared with the bounds. Even cases: a complete analysis whose model definition has tight, shifted, swapped or adjacent bounds, run by the "
        "real Runner on a recording model under a seeded schedule with seeded failures (exceptions, not-a-number, infinity) of single evaluations; every individual and every optimized value in the document is compared with the bounds of the text. "
        "non-trivial: at least one individual was evaluated; distinct: by schedule hash and history.")
NOTE = ("Every recorded evaluation of every simulated run is checked against bounds parsed independently from the model text; seeded sampling of problems, schedules and failing evaluations.")
ASSUME = ["evaluations of the final parabola search are no individuals: they are meant to leave the bounds",
          "reported values are compared up to the rounding of their printed decimals"]


def tighten(rng, c):
    """other bounds for the optimized parameters"""
    out = []
    for l in c.model.split("\n"):
        f = l.split("%", 1)[0].split()
        if len(f) == 4 and f[3] == "1":
            try:
                x, a, b = float(f[0]), float(f[1]), float(f[2])
            except ValueError:
                out.append(l)
                continue
            if a != b:
                a, b = min(a, b), max(a, b)
                w = b - a
                k = rng.randrange(7)
                if k == 1:      # the optimum is likely outside
                    a = a + 0.75 * w
                    x = a + 0.5 * (b - a)
                elif k == 2:
                    b = a + 0.25 * w
                    x = a + 0.5 * (b - a)
                elif k == 3:    # the initial value is a bound
                    x = a
                elif k == 4:
                    x = b
                elif k == 5:    # very narrow
                    b = a + max(abs(a), w) * 1e-9
                    x = a
                l = "%.17g %.17g %.17g 1" % ((x, a, b) if rng.random() < 0.6 else (x, b, a))
        out.append(l)
    c.model = "\n".join(out)


def gen(rng, i, tier):
    if i % 2:
        argv = p04.problem_argv(rng, free=rng.choice([0, 0, 0, 0, 0, 0, 1]), bounds=rng.choice([0, 1, 1, 2, 3, 4, 4, 5, 6]))
        if rng.random() < 0.05:     # many samples are rejected
            n = rng.choice([1, 2])
            argv += ["s=%g" % 10 ** rng.uniform(1, 6.5 if n == 1 else 5), "n=%d" % n, "par=2", "pop=4", "stop=%d" % rng.choice([1, 2, 3])]
        if rng.random() < 0.25:
            argv += ["throw=%d" % rng.randrange(1, 5), "at=%d" % (rng.choice([1, -1]) * int(10 ** rng.uniform(0, 2.5)))]
        return {"kind": 0, "cfg": {"flavour": "opt", "argv": argv, "model": "", "files": {}, "n": 0}, "variants": [{"opts": G.schedule(rng, 20000)}]}
    fl = FLAVOURS[i // 2 % 4]
    c = G.config(rng, fl, rng.choice(["tiny", "small"]), accuracy=rng.choice([0.5, 0.1, 0.03, 1e-3]), stop=rng.choice([1, 2, 3, 5, 12, 30]), trace=rng.choice([0, 1, 1, 1, 2]))
    if rng.random() < 0.8:
        tighten(rng, c)
    if rng.random() < 0.03:
        c.argv[2:5] = ["2", "3", "%.3g" % 10 ** rng.uniform(1, 4)]
        c.argv[6] = rng.choice(["1", "2"])
    v = {"opts": G.schedule(rng, 30000 * int(c.argv[3])), "faults": []}
    if rng.random() < 0.4:
        n = int(10 ** rng.uniform(0, 2.5))
        v["faults"] = [flt("eval", "", n, rng.choice([0, 0, 1]), rng.choice([1, 2, 3, 4, 5, 5, 6, 6]))]
    cfg = cfg_json(c)
    cfg["flavour"] = "rec_" + fl
    return {"kind": 1, "cfg": cfg, "variants": [v]}


COLUMN = {0: 2, 1: 3, 2: 4, 3: 5, 4: 6, 5: 7, 7: 9}    # parameter number: column of the table


def records(rec):
    v = struct.unpack("<%dd" % (len(rec) // 8), rec)
    p = 0
    while p < len(v):
        n = int(v[p])
        yield dict(type=int(v[p + 1]), fiber=int(v[p + 2]), call=int(v[p + 3]), delivered=int(v[p + 4]), y=v[p + 5], x=v[p + 6:p + 6 + n])
        p += 6 + n


def bounds(model, np):
    """bounds of the optimized parameters in the order of the text"""
    secs = doc.read_model(model, np)
    out = []
    for s in secs:
        for q in [s["r"]] + [q for _, ps in s["lines"] for q in ps]:
            if doc.free(q):
                out.append((q["lo"], q["up"]))
    return secs, out


def rounding(t):
    """half a unit in the last printed decimal of a number"""
    t = t.lower()
    m, _, e = t.partition("e")
    d = len(m.split(".")[1]) if "." in m else 0
    return 0.5000001 * 10.0 ** ((int(e) if e else 0) - d)


def evaluate(case, R):
    cfg = case["cfg"]
    ps = []
    for v in case["variants"]:
        r = R(spec(cfg, v))
        if case["kind"] == 0:
            d, tr, vi = p04.lines(r)
            ps += [problem(c, "%s: %s" % (" ".join(cfg["argv"]), t)) for c, t in vi if "outside bounds" in c]
            if r.out:
                R.sig(r.hash, r.out)
            else:
                R.trivial()
            continue
        pop = int(cfg["argv"][3])
        secs, bs = bounds(cfg["model"], G.NPAR[cfg["flavour"][4:]])
        recs = list(records(r.rec))
        nind = 0
        d = doc.Doc(r.out)
        first = 0
        limit = len(r.out)
        if (r.kind, r.code) not in (("exit", 1), ("exit", 2)):      # a final parabola search may have begun after the last row
            t = r.out.rfind(b"\n", 0, r.out.find(b"</log>") if b"</log>" in r.out else len(r.out))
            limit = t + 1 if b"<log>" in r.out else 0
            if b"</log>" in r.out and not d.logtext:
                limit = 0
        for q in recs:
            if q["type"] != 1:
                continue
            first += 1
            if len(q["x"]) != len(bs):
                ps.append(problem("number of parameters", "%s: %d instead of %d" % (brief(cfg), len(q["x"]), len(bs))))
                break
            if first <= pop or q["delivered"] < limit:
                nind += 1
                for k, (x, (a, b)) in enumerate(zip(q["x"], bs)):
                    if not a <= x <= b:
                        ps.append(problem("individual outside bounds", "%s: evaluation %d, parameter %d is %r, bounds %r to %r" % (brief(cfg), q["call"], k, x, a, b)))
                        break
                if ps:
                    break
        # reported values
        if d.complete and not ps:
            val = {r[0]: r for r in d.sections}, {r[0]: r for r in d.lines}
            todo = [("section " + q["id"], q["r"], val[0].get(q["id"]), 4) for q in secs]
            todo += [("line " + i, q[k], val[1].get(i), c) for t in secs for i, q in t["lines"] for k, c in COLUMN.items() if k < len(q)]
            for name, q, row, c in todo:
                if doc.free(q) and row is not None:
                    t = row[c].replace("<strong>", "").split(doc.PM)[0]
                    x, e = float(t), rounding(t)
                    if not q["lo"] - e <= x <= q["up"] + e:
                        ps.append(problem("result outside bounds", "%s: %s column %d is %s, bounds %r to %r" % (brief(cfg), name, c, t, q["lo"], q["up"])))
                        break
                    R.note("reported values")
        if nind:
            R.sig(r.hash, r.rec)
            R.note("individuals", nind)
        else:
            R.trivial()
        if ps:
            break
    R.sample({"argv": cfg["argv"], "kind": case["kind"], "variants": case["variants"], "program": cfg["flavour"]})
    return ps
