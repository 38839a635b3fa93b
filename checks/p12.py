"""P12: a model definition cut off inside a section is rejected; between sections the complete ones form the model."""
import struct
import gen as G, doc
from common import *
from drive import problem

PROP, LEVEL = "P12", "exploration"
BUILD = [(p + f, False) for f in FLAVOURS for p in ("", "rec_")]
BUDGET = {"quick": (2500, 200), "thorough": (100000, 780)}
RULE = ("A case is a generated model definition of 1-3 sections with comments, whose delivery through the pipe ends at seeded bytes (every byte for a share of the cases; arriving in seeded pieces). An independent reader decides whether the text ends inside a section; "
        "then the program must fail with a message before any evaluation, and otherwise write the document of the complete sections; non-trivial: the text was cut; distinct: by text and cut.")
NOTE = "Seeded, partly exhaustive cuts of the input of real runs, decided against an independent reader of the model text."
ASSUME = ["cuts after which no parameter is left to optimize are not judged"]


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    c = G.config(rng, fl, "tiny", nsec=rng.choice([1, 2, 2, 3]), accuracy=0.5, stop=1, parents=2, population=3, trace=1, comments=rng.random() < 0.6)
    n = len(c.model.encode())
    if rng.random() < 0.1 and n < 700 or tier == "thorough" and rng.random() < 0.2:
        cuts = list(range(n))
    else:
        cuts = sorted(set([rng.randrange(n) for _ in range(14)] + [0, n - 1, n - 2] + [c.model.encode().find(b"}", rng.randrange(n)) + d for d in (0, 1, 2)] + [c.model.encode().find(b"{", rng.randrange(n)) + d for d in (0, 1)]))
    cfg = cfg_json(c)
    cfg["flavour"] = "rec_" + fl
    return {"cfg": cfg, "cuts": [k for k in cuts if 0 <= k < n], "chunk": rng.choice([0, 1, 9, 300]), "ioseed": rng.getrandbits(30)}


def state(t):
    """(inside a section, end of the last complete section in t)"""
    inside, end, comment = False, 0, False
    for i, ch in enumerate(t):
        if ch == "\n":
            comment = False
        elif comment:
            pass
        elif ch == "%":
            comment = True
        elif ch == "{" and not inside:
            inside = True
        elif ch == "}":
            inside, end = False, i + 1
    return inside, end


def evaluations(r):
    """the evaluated parameter vectors and values, in no particular order"""
    out, p, b = [], 0, r.rec
    while p < len(b):
        n = int(struct.unpack_from("<d", b, p)[0])
        m = 6 + min(n, 64)
        out.append((b[p + 8:p + 16], b[p + 40:p + 8 * m]))
        p += 8 * m
    return sorted(out)


def without_model(o):
    a, b = o.find(b"<model>\n"), o.find(b"</model>\n")
    return o[:a] + o[b:] if 0 <= a <= b else o


def evaluate(case, R):
    cfg = case["cfg"]
    text = cfg["model"]
    np = G.NPAR[cfg["flavour"][4:]]
    ps, ref = [], {}
    for k in case["cuts"]:
        t = text[:k]
        inside, end = state(t)
        r = R(spec(dict(cfg, model=t), rchunk=case["chunk"], ioseed=case["ioseed"]))
        what = "%s: cut after byte %d of %d (%r)" % (brief(cfg), k, len(text), t[-30:])
        if inside or not end:
            if r.kind != "exit":
                ps.append(problem("a cut model definition ends in " + r.kind, "%s: %s" % (what, show(r))))
            elif r.code in (0, 1, 2) or b"</data>" in r.out:
                ps.append(problem("a cut model definition is accepted", "%s: %s" % (what, show(r))))
            elif not r.err.strip():
                ps.append(problem("a cut model definition is not reported", "%s: %s" % (what, show(r))))
            elif r.rec:
                ps.append(problem("a cut model definition is evaluated", "%s: %s" % (what, show(r))))
            if not ps and (not end or k % 3 == 0):
                # the program itself, without the recording of evaluations
                q = R(spec(dict(cfg, model=t, flavour=cfg["flavour"][4:]), rchunk=case["chunk"], ioseed=case["ioseed"]))
                if (q.kind, q.code, q.out, q.err) != (r.kind, r.code, r.out, r.err):
                    ps.append(problem("a cut model definition ends in " + q.kind if q.kind != "exit" else "a cut model definition has two outcomes", "%s: %s instead of %s" % (what, show(q), show(r))))
            R.note("rejected")
        else:
            try:
                P, root = doc.resolve(doc.read_model(t, np))
            except doc.Syntax:
                R.trivial()
                continue
            if not any(doc.free(p) for p in P.values()):
                R.trivial()
                continue
            if end not in ref:
                ref[end] = R(spec(dict(cfg, model=text[:end] + "\n")))
            b = ref[end]
            if (r.kind, r.code, without_model(r.out), evaluations(r)) != (b.kind, b.code, without_model(b.out), evaluations(b)):
                ps.append(problem("the complete sections do not form the model", "%s: %s instead of %s; %s" % (what, show(r), show(b), diff(without_model(b.out), without_model(r.out)))))
            elif b.kind == "exit" and b.code <= 2:
                d = doc.Doc(r.out)
                ids = sorted(s["id"] for s in doc.read_model(t, np))
                if [x[0] for x in d.sections] != ids:
                    ps.append(problem("the complete sections do not form the model", "%s: sections %r instead of %r" % (what, [x[0] for x in d.sections], ids)))
            R.note("accepted")
        R.sig(text, k)
        R.note("fault.input_cut")
        if ps:
            break
    R.sample({"command": cfg["argv"], "model bytes": len(text), "cuts": case["cuts"][:20]})
    return ps


def shrink(case, R):
    import copy
    import shrink as S
    if len(case["cuts"]) > 1:
        for k in case["cuts"]:
            yield dict(copy.deepcopy(case), cuts=[k])
    elif case["chunk"]:
        yield dict(copy.deepcopy(case), chunk=0)
