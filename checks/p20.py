"""P20: masked data points have no influence."""
import copy
import gen as G, doc
from common import *
from drive import problem

PROP, LEVEL = "P20", "exploration"
BUILD = [(f, o) for f in FLAVOURS for o in (False, True)]
BUDGET = {"quick": (3000, 200), "thorough": (60000, 780)}
RULE = ("A case is an analysis of 1 to 3 spectra with points masked by the data file, by intervals of the model definition (bounds on data points for a share), and outside of the section; it runs as it is, with the flux and uncertainty of a seeded "
        "part of those points corrupted (spikes, zeros, negative and huge values) under another seeded schedule (threads or OpenMP) and surroundings, and with the interval masks written as masks of the data file. Judged: everything but flux, uncertainty and residual "
        "of the corrupted rows is equal byte for byte, and the mask column is the union of both masks. non-trivial: a masked point was corrupted and the run ended normally; distinct: by schedule hashes and result.")
NOTE = "Metamorphic check of simulated runs over seeded corruption of masked points, schedules and surroundings."
ASSUME = []
BAD = ["0", "-0", "-1", "1e30", "-1e30", "1e300", "-1e300", "3e-300", "1e-30", "12345.678", "-7e5", "1"]


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    c = G.config(rng, fl, rng.choice(["tiny", "small"]), stop=rng.choice([1, 2, 3, 8, 30]), parents=rng.choice([2, 3]), comments=rng.random() < 0.2)
    for s in c.sections:
        s["masks"] = list(s["masks"])
        rows, n = s["rows"], len(s["rows"])
        room = sum(r[3] and not any(a <= r[0] <= b for a, b in s["masks"]) for r in rows) - 3 * s["poly"] - 3
        if rng.random() < 0.7 and room > 0:
            s["cols"] = 4
            for j in rng.sample(range(n), min(n, rng.randrange(1, room + 1))):
                rows[j][3] = 0
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            j = rng.randrange(n)
            k = min(n - 1, j + rng.randrange(3))
            e = rng.choice([0, 0, 0.3 * s["dx"]])
            m = (float("%.5f" % rows[j][0]) - e, float("%.5f" % rows[k][0]) + e)
            ok = [r for r in rows if r[3] and not any(a <= float("%.5f" % r[0]) <= b for a, b in s["masks"] + [m])]
            if len(ok) > 3 * s["poly"] + 2:
                s["masks"].append(m)
        if rng.random() < 0.3 and n > 8:
            s["begin"], s["end"] = rows[1][0] - 0.5 * s["dx"], rows[-2][0] + 0.5 * s["dx"]
        c.files[s["file"]] = G.data_text(rng, rows, s["cols"])
    c.model = G.render(rng, c.sections, rng.random() < 0.2)
    vs = [dict(opts=dict(G.schedule(rng, 60000), **G.environment(rng)), seed=rng.getrandbits(32), share=rng.choice([1.0, 1.0, 0.5, 0.1]), omp=rng.random() < 0.2) for _ in range(3)]
    for v in vs:
        v["opts"].pop("rchunk", 0)
        if v["omp"]:
            v["opts"].update(team=rng.choice([1, 2, 3, 8]))
    return {"cfg": cfg_json(c), "variants": vs}


def points(cfg):
    """for every section: list of (file, line number, shown, masked by file, masked by model)"""
    out = []
    for s in doc.read_model(cfg["model"], G.NPAR[cfg["flavour"]]):
        ps = []
        for k, l in enumerate(cfg["files"][s["file"]].split("\n")):
            if not l:
                break
            if l[0] in "#%!":
                continue
            f = l.split()
            x = float(f[0])
            ps.append((s["file"], k, s["begin"] <= x <= s["end"], len(f) > 3 and f[3] == "0", any(a <= x <= b for a, b in s["masks"])))
        out.append(ps)
    return out


def corrupt(cfg, pts, seed, share):
    import random
    rng = random.Random(seed)
    c = dict(cfg, files=dict(cfg["files"]))
    n = 0
    for ps in pts:
        ls = None
        for f, k, shown, m, q in ps:
            ls = ls or c["files"][f].split("\n")
            if (m or q or not shown) and rng.random() < share and len(ls[k].split()) >= 3:
                w = ls[k].split()
                which = rng.choice([1, 2, 3])
                if which & 1:
                    w[1] = rng.choice(BAD)
                if which & 2:
                    w[2] = rng.choice(BAD)
                ls[k] = " ".join(w)
                n += 1
        if ps:
            c["files"][ps[0][0]] = "\n".join(ls)
    return c, n


def view(r, pts):
    """text without what may differ, mask column"""
    o = strip_footer(r.out).decode("latin-1")
    a, b = o.find("<data>\n"), o.find("</data>")
    if a < 0 or b < 0:
        return o, None
    rows, msk = [], []
    for l in o[a + 7:b].split("\n"):
        f = l.split()
        if len(f) == 13 and f[3] == "0":
            l = " ".join(f[:1] + f[3:10])
        if f:
            msk.append(f[3] if len(f) > 3 else "?")
        rows.append(l)
    return o[:a] + "\n".join(rows) + o[b:], msk


def evaluate(case, R):
    cfg = case["cfg"]
    pts = points(cfg)
    base = R(spec(cfg))
    if base.kind == "hang":     # slow sampling between narrow bounds; P13 decides termination
        R.note("slow runs left out", 1)
        R.trivial()
        return []
    if base.kind != "exit":
        return [problem("abnormal end", "%s: %s" % (brief(cfg), show(base)))]
    want, msk = view(base, pts)
    if base.code <= 2 and msk is not None:
        ref = ["0" if m or q else "1" for ps in pts for f, k, shown, m, q in ps if shown]
        if msk != ref:
            j = next((j for j, (x, y) in enumerate(zip(msk, ref)) if x != y), -1)
            return [problem("wrong points masked", "%s: %d rows, expected %d; row %d" % (brief(cfg), len(msk), len(ref), j))]
    hs, total = [base.hash], 0
    for v in case["variants"]:
        c, n = corrupt(cfg, pts, v["seed"], v["share"])
        total += n
        r = R(spec(c, v))
        hs.append(r.hash)
        if (r.kind, r.code) != (base.kind, base.code):
            return [problem("masked points change the status", "%s: %s, without corruption %s" % (brief(cfg), show(r), show(base)))]
        got, _ = view(r, pts)
        if got != want:
            return [problem("masked points change the result", "%s, %d points corrupted: %s" % (brief(cfg), n, diff(want.encode(), got.encode())))]
    # both ways to mask are the same
    if base.code <= 2 and msk is not None and any(q and not m for ps in pts for f, k, s, m, q in ps):
        c = dict(cfg, files=dict(cfg["files"]))
        ms = doc.read_model(cfg["model"], G.NPAR[cfg["flavour"]])
        model = cfg["model"]
        for s, ps in zip(ms, pts):
            ls = c["files"][s["file"]].split("\n")
            for f, k, shown, m, q in ps:
                w = ls[k].split()
                w += ["1", "1"][len(w) - 2:]
                if q and len(w) == 4:
                    w[3] = "0"
                ls[k] = " ".join(w)
            c["files"][s["file"]] = "\n".join(ls)
        import re
        # the header of a section without its masks
        def strip(m):
            f = m.group(0).split()
            return "  " + " ".join(f[:5])
        heads = {s["file"] for s in ms}
        lines = []
        for l in model.split("\n"):
            t, _, rest = l.partition("%")
            f = t.split()
            if len(f) >= 5 and f[1] in heads:
                l = "  " + " ".join(f[:5])
            lines.append(l)
        c["model"] = "\n".join(lines)
        r = R(spec(c, case["variants"][0] if case["variants"] else None))
        got = view(r, pts)[0]
        body = lambda t: t[t.find("</model>"):]
        if r.code != base.code or body(got) != body(want):
            return [problem("masks of data and model differ in effect", "%s: %s %s" % (brief(cfg), show(r), diff(body(want).encode(), body(got).encode())))]
        R.note("interval masks written as masks of the data", 1)
    if total and msk is not None:
        R.sig(hs, base.out)
        R.note("points corrupted", total)
    else:
        R.trivial()
    R.sample({"run": brief(cfg), "points corrupted": total})
    return []


def shrink(case, R):
    import shrink as S
    yield from S.simpler(case, R)
