"""Inputs of the extraction tools and spectrum utilities, and the program under test of cases over all programs."""
import random
import gen as G
from common import *
from sim import Spec

EXTRACT = {"ecom": "command", "emod": "model", "elog": "log", "emes": "message", "edat": "data"}
UTILS = ["airtovac", "vactoair", "helicorr"]
ALL = FLAVOURS + list(EXTRACT) + ["ezip"] + UTILS


def fnum(rng, x, d):
    k = rng.randrange(4)
    return "%.*f" % (d, x) if k < 2 else "%.*e" % (d + 4, x) if k == 2 else "%.*E" % (d + 4, x)


def table(rng, n, cols, skip=0, lo=3000.0, hi=9000.0):
    """rows of numbers as text, and the text of a table"""
    x = rng.uniform(lo, hi - 10)
    dx = (hi - x) / (n + 1) * rng.random()
    rows = []
    for i in range(n):
        r = [fnum(rng, x, 4), fnum(rng, rng.choice([1, 1, 1, 1e-17, -0.3]) * rng.uniform(0, 2), 6)]
        if cols >= 3:
            r.append(fnum(rng, 10 ** rng.uniform(-4, 0), 5))
        if cols >= 4:
            r.append(rng.choice(["0", "1"]))
        rows.append(r)
        x += dx * rng.uniform(0.5, 1.0) + 0.001
    return rows


def text(rng, rows, skip=0):
    ls = []
    for k in range(skip):
        ls.append(rng.choice(["# header", "", "   wavelength flux", "1 2 3", "%", "END"]))
    for r in rows:
        ls.append(rng.choice(["", "", " ", "\t", "     "]) + rng.choice([" ", "  ", "\t"]).join(r) + rng.choice(["", "", "", " ", "\t", " # x"] if len(r) >= 3 else ["", "", " ", "\t"]))
    return "\n".join(ls) + ("\n" if rng.random() < 0.8 else "")


def util(rng, prog, n=None):
    """{argv, stdin, files, rows, skip, ...} of one valid run"""
    n = n or int(10 ** rng.uniform(0, 2))
    skip = rng.choice([0, 0, 0, 1, 2, 5])
    sk = [str(skip)] if skip or rng.random() < 0.2 else []
    if prog == "ezip":
        rows = table(rng, n, 3)
        a, b = [r[:2] for r in rows], [[r[0], r[2]] for r in rows]
        return {"prog": prog, "argv": ["./ezip", "flux.dat", "unc.dat"] + sk, "stdin": "", "rows": rows, "skip": skip,
                "files": {"flux.dat": text(rng, a, skip), "unc.dat": text(rng, b, skip)}}
    cols = rng.choice([2, 3, 3, 4])
    rows = table(rng, n, cols, lo=2100.0, hi=12000.0)
    t = {"prog": prog, "argv": ["./" + prog], "stdin": text(rng, rows, skip), "files": {}, "rows": rows, "skip": skip}
    if prog == "helicorr":
        t["velocity"] = rng.choice(["0", "29780", "-12345.6", "%.3f" % rng.uniform(-3e4, 3e4)])
        t["argv"].append(t["velocity"])
    t["argv"] += sk
    return t


def any_case(rng, i, tier, **o):
    """a run of any program: flavours most often"""
    prog = o.pop("prog", None) or rng.choice(FLAVOURS * 2 + list(EXTRACT) + ["ezip", "ezip"] + UTILS)
    case = {"prog": prog, "cfg": None, "tool": None}
    if prog in FLAVOURS or prog in EXTRACT:
        a = dict(stop=rng.choice([1, 1, 2, 3]), parents=2, population=rng.choice([3, 4, 5]), accuracy=rng.choice([0.5, 0.1]), trace=rng.choice([0, 1, 1]))
        a.update(o)
        c = G.config(rng, prog if prog in FLAVOURS else FLAVOURS[i % 4], "tiny", **a)
        case["cfg"] = cfg_json(c)
    else:
        case["tool"] = util(rng, prog)
    return case


def subject(case, R):
    """the undisturbed execution of a case"""
    if case["prog"] in FLAVOURS:
        return spec(case["cfg"])
    if case["prog"] in EXTRACT:
        o = case.get("document")
        if o is None:
            o = R(spec(case["cfg"])).out
        return Spec(case["prog"], ["./" + case["prog"]], o, {}, {"fuel": FUEL})
    t = case["tool"]
    return Spec(case["prog"], t["argv"], t["stdin"], t["files"], {"fuel": FUEL})


def label(case):
    return case["prog"] + ((" (" + brief(case["cfg"]) + ")") if case["cfg"] else " " + " ".join(case["tool"]["argv"][1:]))


BUILD_ALL = [(p, False) for p in ALL]
