"""P08: input that cannot be read is never mistaken for shorter input; how it arrives never matters."""
import gen as G, tools
from common import *
from drive import problem

PROP, LEVEL = "P08", "exploration"
BUILD = tools.BUILD_ALL
BUDGET = {"quick": (5000, 200), "thorough": (200000, 780)}
RULE = ("A case is a run of one of the 13 programs on generated input, first undisturbed and then with its input delivered in seeded pieces, and with reads of standard input or of a data file failing from a seeded byte on, for ever or once, "
        "with one of several errors, up to and including the read that would report the end of the input, or with a data file that cannot be opened; non-trivial: a read failed or was shortened; distinct: by program, stream, place and schedule hash.")
NOTE = "Seeded fault injection into read and open of real runs with piecewise delivery; trusts the simulated file system."
ASSUME = ["a read error that occurs once may also be retried, with the undisturbed result"]
ERR = [EIO, EIO, EISDIR, EACCES, EAGAIN, EINTR]


def gen(rng, i, tier):
    case = tools.any_case(rng, i, tier)
    vs = []
    for k in range(10):
        c = {"rchunk": rng.choice([0, 0, 1, 3, 7, 64, 512, 4000]), "ioseed": rng.getrandbits(30)}
        if case["prog"] in FLAVOURS and rng.random() < 0.3:
            c.update(G.schedule(rng, 50000))
        if k < 2:
            c["rchunk"] = c["rchunk"] or 1
            vs.append({"opts": c})
            continue
        vs.append({"opts": c, "stream": rng.random(), "place": rng.choice([0.0, 1.0] + [rng.random()] * 6), "err": rng.choice(ERR), "kind": rng.choice(["readerr", "readerr", "readerr", "readonce", "openerr"])})
    case["variants"] = vs
    return case


def evaluate(case, R):
    s = tools.subject(case, R)
    base = R(s)
    ps = []
    if base.kind != "exit":
        R.note("base." + base.kind)
        return ps
    streams = (["<stdin>"] if case["prog"] != "ezip" else []) + sorted(s.files)
    if case["prog"] in FLAVOURS:
        streams = ["<stdin>"] * len(s.files) + sorted(s.files)
    for v in case["variants"]:
        if "kind" not in v:
            r = R(s.copy(opts=v["opts"]))
            if r.outcome() != base.outcome():
                ps.append(problem("arrival of the input matters", "%s: in pieces of up to %d bytes: %s instead of %s; %s" % (tools.label(case), v["opts"]["rchunk"], show(r), show(base), diff(base.out, r.out))))
            if r.c("fault.short_read"):
                R.sig(case["prog"], v["opts"]["rchunk"], r.hash)
            else:
                R.trivial()
        else:
            n = streams[int(v["stream"] * len(streams))]
            data = s.stdin if n == "<stdin>" else s.files[n]
            k = v["kind"]
            if n == "<stdin>" and k == "openerr":
                k = "readerr"
            if v["err"] == EINTR and k == "readerr":      # an interrupted read can be repeated
                k = "readonce"
            at = int(v["place"] * len(data))
            r = R(s.copy(opts=v["opts"], faults=[flt(k, n, at, 0, v["err"])]))
            t = "%s: %s of %s at byte %d of %d, error %d: %s" % (tools.label(case), k, n, at, len(data), v["err"], show(r))
            if not r.c("fired.0"):
                R.trivial()
                if r.outcome() != base.outcome():
                    ps.append(problem("arrival of the input matters", t))
            elif r.kind != "exit":
                ps.append(problem("a read error ends in " + r.kind, t))
            elif r.code in (0, 1, 2):
                if not (k == "readonce" and r.outcome() == base.outcome()):
                    ps.append(problem("a read error is taken for the end of the input", t))
            elif not r.err.strip():
                ps.append(problem("a read error is not reported", t))
            if r.c("fired.0"):
                R.sig(case["prog"], n, k, at, v["err"], r.hash)
                R.note("program." + case["prog"])
        if ps:
            break
    R.sample({"program": case["prog"], "command": s.argv, "variants": case["variants"][:4]})
    return ps
