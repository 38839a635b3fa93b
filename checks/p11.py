"""P11: a result document reproduces itself through the extraction tools."""
import re
import doc, gen as G, tools
from common import *
from drive import problem
from sim import Spec

PROP, LEVEL = "P11", "exploration"
BUILD = [(f, False) for f in FLAVOURS] + [(t, False) for t in tools.EXTRACT]
BUDGET = {"quick": (1300, 200), "thorough": (200000, 780)}
RULE = ("A case is a generated analysis with arbitrarily formatted numbers on the command line and text, blank lines, tabs, markup and comments in its model definition. Its document is passed to the five extraction tools in seeded pieces; what they deliver is compared with "
        "the command line and the model the run was given and with the blocks of the document; the extracted command is then run on the extracted model through pipes cut into other pieces and must write the same document; the data extracted, put in place of the data files, must yield the same document again (where all numbers are exact in the printed digits); documents with the block names of former "
        "versions are extracted alike; non-trivial: a document with a result came out; distinct: by document.")
NOTE = "End-to-end runs of the real programs connected by simulated pipes, against the inputs the run was given; seeded piecewise delivery."
ASSUME = ["no line of the model definition equals one of the block marks"]


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    c = G.config(rng, fl, rng.choice(["tiny", "tiny", "small"]), accuracy=rng.choice([0.5, 0.1, 0.03]), stop=rng.choice([1, 2, 3, 6]), comments=rng.random() < 0.8)
    a = c.argv
    if rng.random() < 0.4:
        k = rng.choice([4, 5])
        x = float(a[k])
        a[k] = rng.choice(["%.17g", "%.3e", "%E", "+%.4g", "0%g", "%.6f"]) % x
    if rng.random() < 0.15:
        k = rng.choice([2, 3, 6, 7])
        a[k] = rng.choice(["0", "00", "+"]) + a[k]
    if rng.random() < 0.3:
        a[0] = rng.choice(["curcuma", "/usr/local/bin/x", "../bin/" + fl, "a-b_c"])
    ls = c.model.split("\n")
    depth, out = 0, []
    for l in ls:
        depth += l.split("%")[0].count("{") - l.split("%")[0].count("}")
        out.append(l + (rng.choice(["  ", "\t", "\r", " % x\r", "\v", " % & <i>x</i> \xc3\xa4", "%", " % </model>", " % <model>", " %</data>"]) if rng.random() < 0.1 and not l.rstrip().endswith("{") else ""))
        if rng.random() < 0.08:
            out.append(rng.choice(["", " ", "\t", "% " + "long " * rng.randrange(1, 300), "% <log>", "%<model>", "%%", "% }{", " %</command>", "% \\n $x `y` \"z\"", "% see </model> and <model>", "%</model>", " % </log>", "%</html>", "% </job>", "%-->", "% <!--", "\t% </input>"]))
    c.model = "\n".join(out)
    vs = [{"opts": {"rchunk": rng.choice([0, 1, 5, 100, 4000]), "wchunk": rng.choice([0, 1, 5, 100, 4000]), "ioseed": rng.getrandbits(30), "stdout": rng.choice([0, 1])}} for k in range(2)]
    return {"cfg": cfg_json(c), "variants": vs}


def blk(o, name):
    """bytes between the marks"""
    a, b = b"<%s>\n" % name, b"\n</%s>\n" % name
    i = o.index(b"\n" + a) + len(a)
    j = o.index(b, i)
    return o[i + 1:j + 1] if j >= i else b""


def with_data(cfg, data):
    """the data files with the extracted data in place of the rows analysed, if these are printed exactly"""
    secs = doc.read_model(cfg["model"], G.NPAR[cfg["flavour"]])
    blocks = data.decode("latin-1").rstrip("\n").split("\n\n")
    if len({s["file"] for s in secs}) != len(secs):
        return None
    if len(blocks) != len(secs):
        return {s["file"]: "" for s in secs}    # cannot be assigned: the run will fail
    files = {}
    for s, b in zip(secs, blocks):
        rows = doc.spectrum(cfg["files"][s["file"]], s["begin"], s["end"])
        if any(float("%.8e" % x) != x for r in rows for x in r[:3]):
            return None
        files[s["file"]] = b + "\n"
    return files


def evaluate(case, R):
    cfg = case["cfg"]
    s = spec(cfg)
    base = R(s)
    ps = []
    if base.kind != "exit" or base.code > 2:
        R.note("base.%s.%d" % (base.kind, base.code))
        R.trivial()
        return ps
    o = base.out
    want = {}
    try:
        for t, n in tools.EXTRACT.items():
            want[t] = blk(o, n.encode())
    except ValueError:
        return [problem("block missing", "%s: no %s block" % (brief(cfg), n))]
    m = s_model = cfg["model"].encode()
    if m and not m.endswith(b"\n"):
        m += b"\n"
    if want["emod"] != m:
        ps.append(problem("model definition is not reproduced", "%s: %s" % (brief(cfg), diff(m, want["emod"]))))
    if want["ecom"].decode("latin-1").split() != cfg["argv"] or want["ecom"].count(b"\n") != 1:
        ps.append(problem("command line is not reproduced", "%r instead of %r" % (want["ecom"], cfg["argv"])))
    old = o
    for a, b in ((b"model", b"job"), (b"message", b"mesg")):
        for k in (b"<%s>\n", b"</%s>\n"):
            old = old.replace(b"\n" + k % a, b"\n" + k % b)
    new = old.replace(b"\n<job>\n", b"\n<input>\n").replace(b"\n</job>\n", b"\n</input>\n")
    for v in case["variants"]:
        got = {}
        for t in tools.EXTRACT:
            r = R(Spec(t, ["./" + t], o, {}, dict(v["opts"], fuel=FUEL)))
            got[t] = r.out
            if (r.kind, r.code) != ("exit", 0):
                ps.append(problem("extraction fails", "%s: %s: %s" % (brief(cfg), t, show(r))))
            elif r.out != want[t]:
                ps.append(problem("extraction differs from the block", "%s: %s: %s" % (brief(cfg), t, diff(want[t], r.out))))
            if t in ("emod", "emes"):
                for d in (old, new):
                    r = R(Spec(t, ["./" + t], d, {}, dict(v["opts"], fuel=FUEL)))
                    if r.out != want[t]:
                        ps.append(problem("extraction from a document of a former version differs", "%s: %s: %s" % (brief(cfg), t, diff(want[t], r.out))))
            if ps:
                return ps
        s2 = Spec(cfg["flavour"], got["ecom"].decode("latin-1").split(), got["emod"], cfg["files"], dict(v["opts"], fuel=FUEL))
        r = R(s2)
        if (r.kind, r.code, r.out) != (base.kind, base.code, base.out):
            ps.append(problem("rerun differs", "%s: %s instead of %s; %s" % (brief(cfg), show(r), show(base), diff(o, r.out))))
            break
    if not ps:
        files = with_data(cfg, want["edat"])
        if files is None:
            R.note("data with more digits than are printed")
        else:
            v = case["variants"][0]
            r = R(Spec(cfg["flavour"], cfg["argv"], cfg["model"], files, dict(v["opts"], fuel=FUEL)))
            R.note("data extracted and analysed again")
            if (r.kind, r.code, r.out) != (base.kind, base.code, base.out):
                ps.append(problem("analysing the extracted data differs", "%s: %s instead of %s; %s" % (brief(cfg), show(r), show(base), diff(o, r.out))))
    R.sig(o)
    R.sample({"command": cfg["argv"], "model lines": cfg["model"].count("\n"), "variants": case["variants"]})
    return ps
