"""P10: a killed run leaves its command, its model and its trace up to date."""
import gen as G, doc, tools
from common import *
from drive import problem
from sim import Spec
from p05 import records

PROP, LEVEL = "P10", "exploration"
BUILD = [(f, False) for f in FLAVOURS] + [("rec_" + f, o) for f in FLAVOURS for o in (False, True)] + [(t, False) for t in ("ecom", "emod", "elog", "emes", "edat")]
BUDGET = {"quick": (900, 200), "thorough": (100000, 780)}
RULE = ("A case is a generated analysis. The Runner on a recording model notes, for each evaluation under seeded schedules (threads and OpenMP), how many bytes had been delivered; then the real program is killed at seeded steps under seeded schedules with its "
        "output split into seeded pieces, and command, model and log are extracted from what it delivered by the real tools; non-trivial: the run was killed after its first and before its last output; distinct: by kill step and schedule hash.")
NOTE = "Seeded crash points at the granularity of memory accesses of real runs; order of delivery checked on the recorded history of every evaluation."
ASSUME = ["a kill loses everything not yet passed to write; what was passed to write is delivered"]


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    c = G.config(rng, fl, rng.choice(["tiny", "small"]), accuracy=rng.choice([0.5, 0.1, 0.03, 1e-3]), stop=rng.choice([2, 3, 5, 12]), trace=rng.choice([1, 1, 2, 3]))
    vs = []
    for k in range(2):
        o = G.schedule(rng, 30000 * int(c.argv[3]))
        o["stdout"] = rng.choice([0, 0, 1])
        v = {"opts": o, "kind": "order"}
        if rng.random() < 0.3:
            v["omp"] = True
            o["team"] = rng.choice([1, 2, 4])
        vs.append(v)
    for k in range(6):
        o = G.schedule(rng, 30000 * int(c.argv[3]))
        o.update(wchunk=rng.choice([0, 0, 0, 1, 10, 100]), ioseed=rng.getrandbits(30), stdout=rng.choice([0, 0, 1]))
        vs.append({"opts": o, "kind": "kill", "place": rng.random() ** rng.choice([1, 1, 3])})
    return {"cfg": cfg_json(c), "variants": vs}


def evaluate(case, R):
    cfg = case["cfg"]
    ps = []
    base = R(spec(cfg))
    if base.kind != "exit" or base.code > 2:
        R.note("base.%s.%d" % (base.kind, base.code))
        return ps
    pop = int(cfg["argv"][3])
    full = base.out
    head = full.find(b"</model>\n")
    if head < 0 or full.find(b"</command>\n") < 0:
        return [problem("no command or model", brief(cfg))]
    head += len(b"</model>\n")
    lo = full.find(b"<log>\n") + 6
    hi = full.find(b"</log>\n")
    rows = []
    p = lo
    for l in full[lo:hi].split(b"\n")[:-1]:
        p += len(l) + 1
        rows.append((int(l.split()[0]), p))
    ext = {}

    def extract(t, data):
        if (t, data) not in ext:
            ext[(t, data)] = R(Spec(t, ["./" + t], data, {}, {"fuel": FUEL}))
        return ext[(t, data)].out
    for v in case["variants"]:
        if v["kind"] == "order":
            r = R(spec(dict(cfg, flavour="rec_" + cfg["flavour"]), v))
            if r.out != full and not v.get("omp"):
                R.note("schedule-dependent")      # P01
                continue
            recs = [q for q in records(r.rec) if q["type"] == 1]
            if recs and recs[0]["delivered"] < head:
                ps.append(problem("evaluation before command and model are delivered", "%s: %d of %d bytes were delivered at the first evaluation" % (brief(cfg), recs[0]["delivered"], head)))
            for k, (g, e) in enumerate(rows):
                if r.code == 0 and k == len(rows) - 1:
                    break
                n = sum(1 for q in recs if q["fiber"] and q["delivered"] < e)
                if n > g * pop:
                    ps.append(problem("trace row is late", "%s: %d individuals were evaluated before the row of generation %d was delivered" % (brief(cfg), n, g)))
                    break
            R.sig(r.hash, len(recs))
            R.note("trace rows", len(rows))
        else:
            o = dict(v["opts"])
            u = R(spec(cfg, dict(v, opts=o)))
            at = 1 + int(v["place"] * u.steps)
            r = R(spec(cfg, dict(v, opts=o), crash=at))
            t = "%s: killed at step %d of %d" % (brief(cfg), at, u.steps)
            if r.kind != "crash":
                R.trivial()
                continue
            if not full.startswith(r.out):
                ps.append(problem("delivered output is not a prefix", t + ": " + diff(full, r.out)))
            else:
                n = len(r.out)
                for tool, end in (("ecom", b"</command>\n"), ("emod", b"</model>\n"), ("elog", b"</log>\n")):
                    a, b = extract(tool, full), extract(tool, r.out)
                    if full.find(end) + len(end) <= n:
                        if a != b:
                            ps.append(problem("extraction from a killed run differs", "%s %s: %s" % (t, tool, diff(a, b))))
                    else:
                        # a last line cut off (possibly within the end mark) does not count
                        rest = r.out[r.out.rfind(b"\n") + 1:]
                        c = b[:-len(rest) - 1] if rest and b.endswith(rest + b"\n") else b
                        if not a.startswith(c):
                            ps.append(problem("extraction from a killed run differs", "%s %s: %s" % (t, tool, diff(a, b))))
                        # every complete line counts
                        x = full.find(end.replace(b"/", b"")) + len(end) - 1
                        have = r.out[x:].count(b"\n") if n > x else 0
                        if b.count(b"\n") < have:
                            ps.append(problem("extraction from a killed run is incomplete", "%s %s: %d lines of %d" % (t, tool, b.count(b"\n"), have)))
                if 0 < n < len(full):
                    R.sig(r.hash, at, n)
                else:
                    R.trivial()
        if ps:
            break
    R.sample({"command": cfg["argv"], "variants": case["variants"][:4], "rows": len(rows)})
    return ps
