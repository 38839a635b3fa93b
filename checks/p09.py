"""P09: success means that the whole output was delivered."""
import gen as G, tools
from common import *
from drive import problem

PROP, LEVEL = "P09", "exploration"
BUILD = tools.BUILD_ALL
BUDGET = {"quick": (4500, 200), "thorough": (300000, 780)}
RULE = ("A case is a run of one of the 13 programs (or of its usage message) on generated input, first undisturbed and then with standard output accepting only a seeded number of bytes (none, some, all but the last, all), with the n-th write failing once or with "
        "writes split into seeded pieces, with several errors and two kinds of buffering; non-trivial: a write failed or was split; distinct: by program, place and schedule hash.")
NOTE = "Seeded fault injection into the writes of real runs, including the flush at exit; trusts the simulated streams to behave like those of the C library."
ASSUME = ["standard output is a pipe or file (fully buffered) or a terminal (line buffered); a program killed by SIGPIPE has failed and is not simulated"]
ERR = [ENOSPC, ENOSPC, EIO, EPIPE, EAGAIN]


def gen(rng, i, tier):
    case = tools.any_case(rng, i, tier)
    if rng.random() < 0.04 and (case["prog"] in FLAVOURS or case["prog"] in ("ezip", "helicorr")):
        case["usage"] = True
    vs = []
    for k in range(9):
        c = {"wchunk": rng.choice([0, 0, 1, 3, 7, 64, 512, 4000]), "ioseed": rng.getrandbits(30), "stdout": rng.choice([0, 0, 1])}
        if case["prog"] in FLAVOURS and rng.random() < 0.3:
            c.update(G.schedule(rng, 50000))
        if k < 1:
            c["wchunk"] = c["wchunk"] or 1
            vs.append({"opts": c})
        elif rng.random() < 0.75:
            vs.append({"opts": c, "kind": "writecap", "place": rng.choice([0.0, 1.0, 0.9999999, rng.random(), rng.random(), rng.random()]), "err": rng.choice(ERR)})
        else:
            vs.append({"opts": c, "kind": "writeonce", "place": rng.choice([rng.random(), 0.0, 0.999999]), "err": rng.choice(ERR)})
    case["variants"] = vs
    return case


def evaluate(case, R):
    s = tools.subject(case, R)
    if case.get("usage"):
        s = s.copy(argv=s.argv[:1])
    base = R(s)
    ps = []
    if base.kind != "exit":
        R.note("base." + base.kind)
        return ps
    n = len(base.out)
    for v in case["variants"]:
        o = v["opts"]
        if "kind" not in v:
            r = R(s.copy(opts=o))
            if r.outcome() != base.outcome():
                ps.append(problem("splitting of the output matters", "%s: in pieces of up to %d bytes: %s instead of %s; %s" % (tools.label(case), o["wchunk"], show(r), show(base), diff(base.out, r.out))))
            if r.c("fault.short_write"):
                R.sig(case["prog"], o["wchunk"], r.hash)
            else:
                R.trivial()
        else:
            if v["kind"] == "writecap":
                at = int(v["place"] * n) if v["place"] < 0.9999 else max(0, n - (1 if v["place"] < 1 else 0))
                f = flt("writecap", "", at, 1, v["err"])
            else:
                ops = R(s.copy(opts=o)).c("io.writes")
                at = 1 + int(v["place"] * ops)
                f = flt("writeonce", "", at, 1, v["err"])
            r = R(s.copy(opts=o, faults=[f]))
            hit = r.c("fired.0")
            t = "%s: %s at %d of %d, error %d: %s" % (tools.label(case), v["kind"], at, n, v["err"], show(r))
            if not hit:
                if r.outcome() != base.outcome():
                    ps.append(problem("splitting of the output matters", t))
                R.trivial()
            else:
                if r.kind != "exit":
                    ps.append(problem("a write error ends in " + r.kind, t))
                elif r.code in (0, 1, 2):
                    if r.out != base.out or r.code != base.code:
                        ps.append(problem("success although output is missing", t + ", %d bytes of %d delivered" % (len(r.out), n)))
                elif not base.out.startswith(r.out) and base.code in (0, 1, 2) and not (v["kind"] == "writeonce" and o["stdout"] == 1):
                    # the C library may go on with the next line of a line buffered stream after a passing error
                    ps.append(problem("output delivered before an error is not a prefix", t + " " + diff(base.out, r.out)))
                R.sig(case["prog"], v["kind"], at, v["err"], r.hash)
                R.note("program." + case["prog"])
        if ps:
            break
    R.sample({"program": case["prog"], "command": s.argv, "variants": case["variants"][:4]})
    return ps
