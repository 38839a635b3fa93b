"""P14: the parts of a result document describe one final state."""
import math
import gen as G, doc, es, physics
from common import *
from drive import problem
import p05, p13

PROP, LEVEL = "P14", "exploration"
BUILD = [(p + f, False) for f in FLAVOURS for p in ("rec_", "")]
BUDGET = {"quick": (2400, 200), "thorough": (100000, 780)}
RULE = ("A case is a generated analysis of 1-3 sections (masks, references, free resolutions, super-sampling, 0-4 polynomials, shuffled section and line names) run by the real Runner on a recording model under a seeded schedule and environment, ended optimized, "
        "stopped or by underflow. The final parameter values are taken from the recorded evaluations at full precision; every number of the document is recomputed from them, the model text and the data: data columns, continuum (own least squares), convolution (own quadrature), optical depths "
        "(own profiles), section and line tables, uncertainties (own parabola search on the recorded costs); non-trivial: the document was recomputed completely; distinct: by document.")
NOTE = "Every number of each simulated document is recomputed by an independent reference from the recorded final state; seeded sampling of analyses, schedules and environments."
ASSUME = ["Voigt profiles are compared with the Voigt function within the accuracy of the approximations (1.5 and 0.2 per cent of the peak)",
          "the convolution is recomputed on evenly spaced data; nearer to the ends than the extent of the line spread function it is bounded by those with either of the last two samples continued; the continuum only if well determined"]

# accuracy of the quadrature and of the approximations of the Voigt profile
EW = {"curcuma": 0.002, "azafran": 0.002, "mascada": 0.05, "oregano": 0.25}


def gen(rng, i, tier):
    fl = FLAVOURS[i % 4]
    big = rng.random() < 0.002  # a section with many data points
    if big:
        c = G.config(rng, fl, "tiny", exact=rng.randrange(20000, 21500), nsec=1, dim=1, parents=1, population=2, stop=1, super=rng.random() < 0.5, poly=1)
    else:
        c = G.config(rng, fl, rng.choice(["tiny", "tiny", "small"]), short=rng.random() < 0.05, accuracy=rng.choice([1e-3, 0.01, 0.03, 0.1, 0.3]), stop=rng.choice([1, 2, 4, 10, 25]), trace=rng.choice([0, 1, 2]))
    if rng.random() < 0.1:
        c.argv[4] = rng.choice(["1e-9", "1e-20"])
    cfg = cfg_json(c)
    cfg["model"] = p13.scales(cfg["model"])
    cfg["flavour"] = "rec_" + fl
    v = {"opts": dict(G.schedule(rng, 40000 * int(c.argv[3])), **G.environment(rng))}
    if big:
        v["opts"].update(rchunk=4000, wchunk=4000)
    return {"cfg": cfg, "variants": [v], "real": rng.random() < 0.3}


class Quiet:
    sig = note = trivial = lambda self, *x: None


def near(cell, w, tol=0.0):
    """the printed number is w up to rounding"""
    x = float(cell)
    if x != x or w != w:
        return (x != x) == (w != w)
    if math.isinf(w) or math.isinf(x):
        return x == w
    return abs(x - w) <= p05.rounding(cell) + tol + 1e-13 * abs(w)


def evaluate(case, R):
    cfg, v = case["cfg"], case["variants"][0]
    r = R(spec(cfg, v))
    what = "%s %s" % (cfg["flavour"][4:], " ".join(cfg["argv"][1:]))
    if r.kind != "exit" or r.code not in (0, 1, 2):
        R.trivial()     # decided in P13
        return []
    if case.get("real"):
        # the program itself, without the recording of evaluations
        q = R(spec(dict(cfg, flavour=cfg["flavour"][4:]), v))
        if (q.kind, q.code, q.out, q.err) != (r.kind, r.code, r.out, r.err):
            return [problem("another document without the recording", "%s: %s instead of %s; %s" % (what, show(q), show(r), diff(r.out, q.out)))]
    keep = {}
    p13.judge(cfg, r, Quiet(), keep)
    d = doc.Doc(r.out)
    if not d.complete:
        return [problem("no complete document", what)]
    try:
        ps = check(cfg, d, r, keep, R)
    except (ValueError, IndexError, KeyError) as e:
        ps = [("malformed document", repr(e))]
    for c, t in ps[:1]:
        return [problem(c, "%s: %s" % (what, t))]
    R.sample({"command": cfg["argv"], "status": r.code, "sections": d.sections, "lines": d.lines[:3], "rows": [len(b) for b in d.data]})
    return []


def check(cfg, d, r, keep, R):
    fl = cfg["flavour"][4:]
    np = G.NPAR[fl]
    secs, bs = p05.bounds(cfg["model"], np)
    P, root = doc.resolve(secs)
    out = []
    # values at full precision
    order = []
    for s in secs:
        order.append(("s", s["id"], 0))
        for i, q in s["lines"]:
            order += [("l", i, k) for k in range(np)]
    free = [k for k in order if doc.free(P[k])]
    begins = [e for e in p05.records(r.rec) if e["type"] == 1]
    ys = {e["call"]: e["y"] for e in p05.records(r.rec) if e["type"] == 2}
    if keep:
        X, Y = keep["x"], keep["y"]
    else:
        if r.code == 0:
            R.trivial()
            return out
        X, Y = begins[-1]["x"], ys[begins[-1]["call"]]
    if not free:
        X = ()
    at = dict(zip(free, X))
    val, isfree = {}, {}
    for k in order:
        q = root[k]
        isfree[k] = doc.free(P[q])
        val[k] = at[q] if isfree[k] else P[q]["lo"] if P[q]["opt"] and P[q]["lo"] == P[q]["up"] else P[q]["val"]
    # uncertainties
    unc, utol = {}, 0.0
    if keep and r.code == 0 and free:
        tail, n, S = keep["tail"], len(free), keep["S"]
        it = iter([(tail[k][1], tail[k + 1][1]) for k in range(1, len(tail) - 1, 2)])
        g = [es.parabola(S.s, it, tail[0][1]) for _ in range(n)]
        if next(it, None) is not None:
            out.append(("uncertainty search does not end where it should", "%d probes" % len(tail)))
        with_log = all(x > 0 and x < math.inf for x in g)
        h = math.exp(es.sum(math.log(x) for x in g) / n) if with_log else None
        if h is not None:
            unc = {k: h * math.sqrt(S.C[j][j]) for j, k in enumerate(free)}
        utol = 1e-6 + 1e3 * S.err
        if any(a != b for a, b in zip(tail[0][0], X)):
            out.append(("uncertainties of another state", "%r" % (tail[0][0],)))
    elif r.code != 0:
        unc = {k: 0.0 for k in free}

    def cell(t, k, where):
        """a table cell of parameter k"""
        f = t.split(doc.PM)
        if not near(f[0], val[k]):
            out.append(("wrong parameter value", "%s: %r instead of %.12g" % (where, t, val[k])))
        if (len(f) > 1) != isfree[k]:
            out.append(("wrong parameter kind", "%s: %r, free %s" % (where, t, isfree[k])))
        elif len(f) > 1 and unc and not near(f[1], unc[root[k]], utol * abs(unc[root[k]])):
            out.append(("wrong uncertainty", "%s: %r instead of %.12g" % (where, t, unc[root[k]])))

    # data blocks
    if len(d.data) != len(secs):
        return [("wrong number of sections", "%d data blocks for %d sections" % (len(d.data), len(secs)))]
    total = 0.0
    table = {}
    for s, rows in zip(secs, d.data):
        want = doc.spectrum(cfg["files"][s["file"]], s["begin"], s["end"])
        if len(rows) != len(want) or any(len(f) != 13 for f in rows):
            return [("wrong number of data rows", "section %s: %d of %d" % (s["id"], len(rows), len(want)))]
        F = [[float(x) for x in f] for f in rows]
        x, y, u = [w[0] for w in want], [w[1] for w in want], [w[2] for w in want]
        ok = [w[3] and not any(a <= w[0] <= b for a, b in s["masks"]) for w in want]
        lines = [physics.Line(fl, [val[("l", i, k)] for k in range(np)]) for i, _ in s["lines"]]
        tau = lambda t: math.fsum(l(t) for l in lines)
        acc = max([l.acc for l in lines] + [0.0])
        peak = sum(l.peak() for l in lines)
        for t, f in zip(range(len(F)), F):
            at_ = "section %s, data row %d" % (s["id"], t + 1)
            o, atm, cat, cfl, tfl, fit, res, nfl, nun = f[4:]
            if not (near(rows[t][0], x[t]) and near(rows[t][1], y[t]) and near(rows[t][2], u[t]) and f[3] == (1 if ok[t] else 0)):
                return [("data row differs from the data", "%s: %r instead of %r" % (at_, rows[t][:4], (x[t], y[t], u[t], ok[t])))]
            e = 2e-8
            if not abs(o - tau(x[t])) <= e * abs(o) + 1e-8 * peak + acc * sum(l.acc and l.peak() for l in lines) and not any(l.edge(x[t]) for l in lines):
                out.append(("wrong optical depth", "%s: %g instead of %g" % (at_, o, tau(x[t]))))
            if not abs(atm - math.exp(-o)) <= e * atm * (1 + abs(o)) + 1e-300:
                out.append(("wrong absorption", "%s: %g instead of exp(-%g)" % (at_, atm, o)))
            if not abs(tfl - cfl * atm) <= e * abs(tfl) + 1e-300:
                out.append(("wrong unconvolved flux", "%s: %g instead of %g * %g" % (at_, tfl, cfl, atm)))
            if not abs(fit - cfl * cat) <= e * abs(fit) + 1e-300:
                out.append(("wrong convolved flux", "%s: %g instead of %g * %g" % (at_, fit, cfl, cat)))
            if not abs(res - (y[t] - fit) / u[t]) <= e * abs(res) + e * abs(fit) / u[t] + 1e-300:
                out.append(("wrong residual", "%s: %g instead of %g" % (at_, res, (y[t] - fit) / u[t])))
            if not abs(nfl - y[t] / cfl) <= e * abs(nfl) + 1e-300 or not abs(nun - u[t] / cfl) <= e * abs(nun):
                out.append(("wrong normalized flux", "%s: %g, %g instead of %g, %g" % (at_, nfl, nun, y[t] / cfl, u[t] / cfl)))
            if out:
                return out
        n = len(x)
        if n < 3 and any(f[6] != f[5] for f in F):
            out.append(("wrong convolution", "section %s: %r instead of %r" % (s["id"], [f[6] for f in F], [f[5] for f in F])))
        if n > 2:
            dx = (x[-1] - x[0]) / (n - 1)
            if all(abs(x[k + 1] - x[k] - dx) < 1e-2 * dx for k in range(n - 1)):
                rs = val[("s", s["id"], 0)]
                ref = physics.spread(x, None if acc else tau, rs, [f[5] for f in F])
                slope = max(abs(F[k + 1][5] - F[k][5]) for k in range(n - 1)) * 2 + 1e-3
                # uneven spacing within the tolerance above shifts the samples a little
                tol = 1e-5 + 3 * slope * max(abs(x[k + 1] - x[k] - dx) for k in range(n - 1)) / dx
                for t, (lo, hi) in enumerate(ref or []):
                    R.note("recomputed.convolutions" if lo == hi else "bounded.convolutions")
                    if not lo - tol <= F[t][6] <= hi + tol:
                        out.append(("wrong convolution", "section %s, data row %d: %g instead of %g to %g" % (s["id"], t + 1, F[t][6], lo, hi)))
            cat = [f[6] for f in F]
            ref = physics.continuum(x, y, u, ok, cat, s["nle"])
            if ref is not None:
                R.note("recomputed.continua")
                big = max(abs(t) for t in ref)
                for t in range(n):
                    if not abs(ref[t] - F[t][7]) <= 1e-3 * big if s["nle"] > 3 else not abs(ref[t] - F[t][7]) <= 2e-4 * big:
                        out.append(("wrong continuum", "section %s, data row %d: %g instead of %g" % (s["id"], t + 1, F[t][7], ref[t])))
        if out:
            return out
        cost = 0.5 * math.fsum(f[10] ** 2 for f, k in zip(F, ok) if k)
        total += cost
        table[s["id"]] = (s, x, sum(1 for k in ok if k), cost)
    if not abs(total - Y) <= 1e-6 * abs(Y) + 1e-12:
        out.append(("costs do not add up", "section costs %.9g, final cost %.9g" % (total, Y)))
    if r.code == 0 and d.log and float(d.logtext[-1].split()[1]) != float("%.4e" % Y):
        out.append(("costs do not add up", "last log row %s, final cost %.9g" % (d.logtext[-1], Y)))
    # tables
    if [c[0] for c in d.sections] != sorted(table):
        out.append(("wrong section table", "sections %r instead of %r" % ([c[0] for c in d.sections], sorted(table))))
        return out
    for c in d.sections:
        s, x, px, cost = table[c[0]]
        w = "section %s" % c[0]
        if not near(c[1], x[0]) or not near(c[2], x[-1]) or int(c[3]) != s["nle"] or int(c[5]) != px:
            out.append(("wrong section table", "%s: %r instead of %r" % (w, c, (x[0], x[-1], s["nle"], px))))
        k = re.sub("</?strong>", "", c[6])
        if not near(k, cost, 1e-6 * cost) or px and not near(c[7], cost / px, 1e-6 * cost / px):
            out.append(("wrong section cost", "%s: %r instead of %.6f, %.6f" % (w, c[6:], cost, cost / px if px else 0)))
        cell(c[4], ("s", c[0], 0), w + " resolution")
    ids = sorted(i for s in secs for i, _ in s["lines"])
    if [c[0] for c in d.lines] != ids:
        out.append(("wrong line table", "lines %r instead of %r" % ([c[0] for c in d.lines], ids)))
        return out
    for c in d.lines:
        i = c[0]
        q = [val[("l", i, k)] for k in range(np)]
        w = "line %s" % i
        for k in range(6):
            cell(c[2 + k], ("l", i, k), "%s parameter %d" % (w, k))
        if np == 8:
            cell(c[9], ("l", i, 7), "%s parameter 7" % w)
        o = c[1].split(doc.PM)
        if not near(o[0], q[0] * (1 + q[2]) * (1 + q[3] / physics.KMS)):
            out.append(("wrong observed wavelength", "%s: %r" % (w, c[1])))
        if r.code != 0 or unc:
            u = [unc.get(root[("l", i, k)], 0.0) if isfree[("l", i, k)] else 0.0 for k in range(np)]
            dw = u[0] + q[0] * math.sqrt(((1 + q[3] / physics.KMS) * u[2]) ** 2 + ((1 + q[2]) * u[3] / physics.KMS) ** 2)
            if not near(o[1], dw, utol * dw):
                out.append(("wrong observed wavelength", "%s: %r instead of +- %g" % (w, c[1], dw)))
        L = physics.Line(fl, q)
        ew = L.width()
        R.note("recomputed.widths")
        if not near(c[8], ew, 0.01 + EW[fl] * ew):
            out.append(("wrong equivalent width", "%s: %s instead of %.4f" % (w, c[8], ew)))
    if not out:
        R.sig(r.out)
        R.note("end.%d" % r.code)
        if unc and r.code == 0:
            R.note("recomputed.uncertainties", len(unc))
    return out
