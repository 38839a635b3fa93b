"""P02: the OpenMP build gives the same document for every team size, loop schedule and interleaving."""
import gen as G, doc
import re
from common import *
from drive import problem

PROP, LEVEL = "P02", "exploration"
BUILD = [(f, True) for f in FLAVOURS]
BUDGET = {"quick": (900, 200), "thorough": (100000, 780)}
RULE = ("A case is a generated analysis run by the OpenMP build with one thread and then with seeded team sizes (1-16, fixed or changing from region to region), loop schedules, nesting and "
        "interleavings, some with happens-before race detection; non-trivial: more than one thread took part in some region; distinct: by the hashes of the schedules and the document.")
NOTE = ("Seeded sampling over team sizes and interleavings with a simulated OpenMP runtime; the documents are compared byte by byte except the equivalent widths, which may differ by "
        "twice the accuracy of the quadrature. Trusts the simulated OpenMP runtime.")
ASSUME = ["the simulated OpenMP runtime implements the entry points gcc emits; teams of up to 16 threads"]
EW_TOL = 0.0065     # milli-Angstrom: twice the accuracy of the quadrature (2e-3) and of the rounding to three digits


def gen(rng, i, tier):
    c = G.config(rng, FLAVOURS[i % 4], rng.choice(["tiny", "small", "small", "medium"]), stop=rng.choice([1, 2, 3, 5, 12]), accuracy=rng.choice([0.5, 0.1, 0.03, 1e-3]))
    if i % 67 == 5:     # thousands of evaluations
        c = G.config(rng, FLAVOURS[i // 67 % 4], "tiny", npts=6, nsec=1, dim=2, stop=rng.choice([150, 250, 400]), accuracy=1e-12, trace=rng.choice([0, 1, 50]), population=rng.choice([7, 9, 12]), parents=rng.choice([2, 3]))
    est = 40000 * int(c.argv[3])
    vs = []
    for k in range(rng.choice([2, 3, 4])):
        o = G.schedule(rng, est)
        o.update(team=rng.choice([1, 2, 2, 3, 4, 5, 8, 16]), teamvary=rng.choice([0, 0, 1]), eseed=rng.getrandbits(30), nested=rng.choice([0, 1]), ncpu=rng.choice([1, 4, 64]))
        if rng.random() < 0.25:
            o["race"] = 1
        vs.append({"opts": o, "omp": True})
    return {"cfg": cfg_json(c), "variants": vs}


def split(out):
    """document without the equivalent widths, and the equivalent widths with their accuracy"""
    ew, ls, col, x, b = [], [], None, 0.0, 0.0
    tables = 0
    for l in out.decode("latin-1").split("\n"):
        if "<tbody" in l:
            tables += 1
        if l.strip() == "<tr>":
            col = -1
        elif l.startswith("      <td>") and col is not None:
            col += 1
            if tables == 2 and col in (1, 6):
                f = abs(float(re.split("[^-+.0-9a-zA-Z]", l.strip()[4:])[0]))
                x, b = (f, b) if col == 1 else (x, f)
            if tables == 2 and col == 8:
                e = l.strip()[4:-5]
                # the quadrature is accurate to 1e-6 of the width of the line
                ew.append((e, EW_TOL + 2e-3 * 8 * b / 3e5 * x + 1e-3 * abs(float(e))))
                l = "<ew>"
        ls.append(l)
    return "\n".join(ls), ew


def evaluate(case, R):
    cfg = case["cfg"]
    base = R(spec(cfg, {"omp": True}, team=1))
    if base.kind != "exit":
        R.note("base." + base.kind)
    bt, be = split(base.out)
    ps, hs = [], [base.hash]
    multi = False
    for v in case["variants"]:
        r = R(spec(cfg, v))
        hs.append(r.hash)
        multi |= r.c("switches") > 0
        if (r.kind, r.code, r.err) != (base.kind, base.code, base.err):
            ps.append(problem("team-dependent outcome", "%s: %s with %r instead of %s with one thread" % (brief(cfg), show(r), v["opts"], show(base))))
        elif base.kind == "exit":
            t, e = split(r.out)
            if t != bt:
                ps.append(problem("team-dependent document", "%s with team %d: %s" % (brief(cfg), v["opts"]["team"], diff(bt.encode(), t.encode()))))
            elif e != be:
                if len(e) != len(be) or not all(a == b or abs(float(a[0]) - float(b[0])) <= b[1] for a, b in zip(e, be)):
                    ps.append(problem("team-dependent equivalent width", "%s with team %d: %r instead of %r" % (brief(cfg), v["opts"]["team"], e, be)))
                else:
                    R.note("equivalent widths differing within tolerance")
        if r.race:
            ps.append(problem("data race", "%s: %d conflicting unsynchronised accesses, first %r" % (brief(cfg), len(r.race), r.race[0])))
        if ps:
            break
    if multi:
        R.sig(hs, base.out)
    else:
        R.trivial()
    R.sample({"command": cfg["argv"], "variants": [v["opts"] for v in case["variants"]], "exit": base.code})
    return ps
