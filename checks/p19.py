"""P19: the spectrum tools conserve the spectrum."""
import math, re
import tools
from common import *
from drive import problem
from sim import Spec

PROP, LEVEL = "P19", "exploration"
BUILD = [("ezip", False), ("airtovac", False), ("vactoair", False), ("helicorr", False)]
BUDGET = {"quick": (5000, 200), "thorough": (400000, 780)}
RULE = ("A case is a table of 1 to 3000 (sometimes 70000) rows of 2 to 4 columns (magnitudes from subnormal to 1e300, several notations), lines to skip, and a tool; the tool runs under seeded chunkings of input and output; then the input is damaged 8 times: cut off at a "
        "seeded byte (ends and beginnings of numbers for a share), a line deleted, doubled, blank, with one column, with text, with or without the uncertainty of the others, wrong argument. Judged against a reference reader and the conversion "
        "formulas: either all rows in order or no output and nonzero status; vacuum to air to vacuum returns the spectrum. non-trivial: rows written or damaged input judged; distinct: by output and damage.")
NOTE = "Reference reader and conversions against every simulated run of the real programs, over seeded chunkings, truncations and damage."
ASSUME = ["both files given to ezip have the same wavelengths (it does not compare them)"]
NUM = re.compile(r"[+-]?[0-9]*\.?[0-9]*(?:[eE][+-]?[0-9]*)?")
FULL = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?")


def number(s, i):
    """next number as operator>> reads it: (value or None, position)"""
    while i < len(s) and s[i] in " \t\r\v\f":
        i += 1
    m = NUM.match(s, i)
    t = m.group(0)
    if not FULL.fullmatch(t) or math.isinf(float(t)):
        return None, m.end()
    return float(t), m.end()


def read(text, skip, third):
    """rows of a table or None if it is none"""
    ls = text.split("\n")
    if ls[-1] == "":
        ls.pop()
    rows = []
    for l in ls[skip:]:
        a, i = number(l, 0)
        b, i = number(l, i) if a is not None else (None, i)
        if b is None:
            return None
        r = [a, b]
        if third:
            c, i = number(l, i)
            if c is not None:
                r.append(c)
        rows.append(r)
        if len(r) != len(rows[0]):
            return None
    return rows or None


def edlen(x):
    return (1.0 + 8.34213E-05 + 1.5997E-10 / (0.0000389 - x * x) + 2.406030E-08 / (0.000130 - x * x)) * x


def expect(t):
    """rows of the output or None if the input must be rejected"""
    if t.get("badarg"):
        return None
    if t["prog"] == "ezip":
        a, b = (read(t["files"][f], t["skip"], False) for f in ("flux.dat", "unc.dat"))
        if not a or not b or len(a) != len(b):
            return None
        return [[y[0], x[1], y[1]] for x, y in zip(a, b)]
    return read(t["stdin"], t["skip"], True)


def mapped(t, x):
    """True if y may be the conversion of x"""
    p = t["prog"]
    if p == "ezip":
        return lambda y: abs(y - x) <= 6e-7 + 1e-15 * abs(x)
    if p == "helicorr":
        v = float(t["velocity"]) / 299792458.0
        z = x * math.sqrt((1 + v) / (1 - v))
        return lambda y: abs(y - z) <= 6e-7 + 1e-12 * abs(z)
    if p == "vactoair":
        z = 10.0 / edlen(10.0 / x)
        return lambda y: abs(y - z) <= 6e-7 + 1e-12 * abs(z)
    z = x
    for _ in range(50):         # vacuum wavelength whose air wavelength is x
        z = z * x / (10.0 / edlen(10.0 / z))
    return lambda y: abs(y - z) <= 6e-7 + 1.1e-8 * abs(z)


def gen(rng, i, tier):
    prog = rng.choice(["ezip", "airtovac", "vactoair", "helicorr"])
    n = rng.choice([1, 2, 3, int(10 ** rng.uniform(0, 2)), int(10 ** rng.uniform(0, 3.5))])
    big = rng.random() < 0.004
    if big:
        n = rng.randrange(20000, 70000)
    t = tools.util(rng, prog, n)
    if rng.random() < 0.2:      # unusual magnitudes of flux and uncertainty
        for f in list(t["files"]) + ["stdin"]:
            s = t["files"][f] if f in t["files"] else t["stdin"]
            ls = s.split("\n")
            for k in range(t["skip"], len(ls)):
                w = ls[k].split()
                if len(w) >= 2 and rng.random() < 0.3:
                    w[rng.choice([1, min(2, len(w) - 1)])] = rng.choice(["0", "-0", "-1.5e-100", "3e-320", "-2E+301", "1e5", "-1e-5", "+7", ".5", "5.", "123456789.123"])
                    ls[k] = " ".join(w)
            if f == "stdin":
                t["stdin"] = "\n".join(ls)
            else:
                t["files"][f] = "\n".join(ls)
    vs = [{"rchunk": rng.choice([1, 3, 7, 64, 1000, 4000]), "wchunk": rng.choice([0, 1, 5, 100, 4000]), "ioseed": rng.getrandbits(32), "junk": rng.randrange(7), "mseed": rng.getrandbits(32)} for _ in range(rng.choice([1, 2]))]
    if big:
        vs = [dict(vs[0], rchunk=4000, wchunk=0)]
    return {"tool": t, "variants": vs, "damage": [[rng.choice(["cut", "cut", "cut", "cutnum", "drop", "double", "blank", "one", "text", "two", "three", "arg", "less", "swap"]), rng.random(), rng.random()] for _ in range(0 if big else 8)]}


def damage(t, d):
    kind, u, w = d
    t = dict(t, files=dict(t["files"]))
    names = sorted(t["files"]) or ["stdin"]
    f = names[int(w * 7919) % len(names)]
    s = t["stdin"] if f == "stdin" else t["files"][f]
    if kind == "cut":
        s = s[:int(u * len(s))]
    elif kind == "cutnum":      # next to the end of a number
        ends = [m.end() for m in re.finditer(r"\S+", s)]
        if ends:
            s = s[:max(0, ends[int(u * len(ends))] - int(w * 5))]
    elif kind == "arg":
        t["argv"] = list(t["argv"])
        bad = ["x", "a1", "--1", "-1", "", "+", ".", "99999999999999999999999"][int(u * 8)]
        k = {"ezip": 3, "helicorr": 2}.get(t["prog"], 1)
        if t["prog"] == "helicorr" and w < 0.5:
            k, bad = 1, ["x", "e5", "", "--1", "1e999", "-", "km/s", "v"][int(u * 8)]
        if len(t["argv"]) > k:
            t["argv"][k] = bad
        else:
            t["argv"].append(bad)
        t["badarg"] = True
        return t
    elif kind == "less":
        t["argv"] = list(t["argv"])
        n = s.count("\n") + 1 + int(u * 3)
        k = {"ezip": 3, "helicorr": 2}.get(t["prog"], 1)
        t["argv"] = t["argv"][:k] + [str(n)]
        t["skip"] = n
    else:
        ls = s.split("\n")
        n = len(ls) - (ls[-1] == "")
        k = int(u * n)
        if kind == "drop":
            ls.pop(k)
        elif kind == "double":
            ls.insert(k, ls[k])
        elif kind == "blank":
            ls.insert(k, ["", "  ", "\t"][int(w * 3)])
        elif kind == "swap":
            j = int(w * n)
            ls[k], ls[j] = ls[j], ls[k]
        else:
            c = ls[k].split()
            c = {"one": c[:1], "text": c[:1] + ["x"] + c[1:] if w < 0.5 else ["x"] + c, "two": c[:2], "three": (c + ["1", "1", "1"])[:3]}[kind]
            ls[k] = " ".join(c)
        s = "\n".join(ls)
    if f == "stdin":
        t["stdin"] = s
    else:
        t["files"][f] = s
    return t


def judge(t, r, what):
    rows = expect(t)
    if r.kind != "exit":
        return [problem("abnormal end", "%s: %s" % (what, show(r)))]
    if rows is None:
        if r.code == 0:
            return [problem("accepts what is not a table", "%s: %s" % (what, show(r)))]
        if r.out:
            return [problem("output in spite of rejection", "%s: %r" % (what, r.out[:80]))]
        return []
    if r.code:
        return [problem("rejects a table", "%s: %s" % (what, show(r)))]
    out = r.out.decode("latin-1")
    if not out.endswith("\n"):
        return [problem("last row incomplete", "%s: %r" % (what, out[-60:]))]
    ls = out[:-1].split("\n")
    if len(ls) != len(rows):
        return [problem("number of rows", "%s: %d, expected %d" % (what, len(ls), len(rows)))]
    for k, (l, e) in enumerate(zip(ls, rows)):
        c = l.split()
        if len(c) != len(e):
            return [problem("columns", "%s row %d: %r, expected %r" % (what, k, l, e))]
        try:
            x, rest = float(c[0]), [float(v) for v in c[1:]]
        except ValueError:
            return [problem("row is not numbers", "%s row %d: %r" % (what, k, l))]
        if e[0] and not mapped(t, e[0])(x):
            return [problem("wavelength", "%s row %d: %r, from %r" % (what, k, l, e))]
        for v, w in zip(rest, e[1:]):
            if not abs(v - w) <= 6e-7 * abs(w) + 5e-324:
                return [problem("flux or uncertainty changed", "%s row %d: %r, from %r" % (what, k, l, e))]
    return []


def evaluate(case, R):
    t = case["tool"]
    run = lambda t, o=None: R(Spec(t["prog"], t["argv"], t["stdin"], t["files"], dict({"fuel": FUEL}, **(o or {}))))
    name = " ".join(t["argv"])
    base = run(t)
    ps = judge(t, base, name)
    for o in case["variants"]:
        if ps:
            return ps
        r = run(t, o)
        if (r.kind, r.code, r.out) != (base.kind, base.code, base.out):
            return [problem("depends on chunks", "%s %r: %s %s" % (name, o, show(r), diff(base.out, r.out)))]
    if ps:
        return ps
    R.sig([base.hash], base.out)
    # there and back
    p = t["prog"]
    if base.code == 0 and p in ("airtovac", "vactoair"):
        q = {"airtovac": "vactoair", "vactoair": "airtovac"}[p]
        r = R(Spec(q, ["./" + q], base.out, {}, {"fuel": FUEL}))
        rows = expect(t)
        ls = r.out.decode("latin-1").split("\n")[:-1]
        if r.code or len(ls) != len(rows):
            return [problem("there and back", "%s then %s: %s, %d rows of %d" % (name, q, show(r), len(ls), len(rows)))]
        for k, (l, e) in enumerate(zip(ls, rows)):
            if not abs(float(l.split()[0]) - e[0]) <= 2.5e-6 + 1.2e-8 * e[0]:
                return [problem("there and back", "%s then %s row %d: %r, from %r" % (name, q, k, l, e))]
    for k, d in enumerate(case["damage"]):
        u = damage(t, d)
        if len(u["stdin"]) + sum(map(len, u["files"].values())) > 60000:
            continue
        r = run(u, case["variants"][0] if k % 2 else None)
        ps = judge(u, r, "%s with input damaged by %r" % (name, d))
        if ps:
            return ps
        R.sig([r.hash], r.out + r.err)
        R.note("damaged inputs rejected" if r.code else "damaged inputs still tables", 1)
    R.sample({"tool": name, "rows": len(t["rows"]), "damage": case["damage"]})
    return []


def shrink(case, R):
    import copy
    import shrink as S
    for i in range(len(case["damage"])):
        if len(case["damage"]) > 1:
            yield dict(case, damage=[case["damage"][i]])
    if case["damage"]:
        yield dict(case, damage=[])
    if case["variants"][1:]:
        yield dict(case, variants=case["variants"][:1])
    t = case["tool"]
    n = (t["stdin"] or "\n".join(t["files"].values())).count("\n")
    for keep in (1, 2, 3, 5, 10, 30, n // 2):
        if keep < n:
            c = copy.deepcopy(case)
            cut = lambda s: "\n".join(s.split("\n")[:t["skip"] + keep]) + "\n"
            if t["stdin"]:
                c["tool"]["stdin"] = cut(t["stdin"])
            c["tool"]["files"] = {k: cut(v) for k, v in t["files"].items()}
            yield c
