"""Seeded generation of model definitions, spectra and command lines."""
import math, random

NPAR = {"curcuma": 6, "oregano": 7, "mascada": 7, "azafran": 8}
FLAVOURS = list(NPAR)


def num(rng, x, p=6):
    return rng.choice(["%.*g" % (p, x), "%.*e" % (p, x), "%.*f" % (p, x)]) if abs(x) > 1e-3 else "%.*g" % (p, x)


class Config:
    """One analysis: flavour, command line, model, data files, and what the generator knows about them."""

    def __init__(self):
        self.flavour = None
        self.argv = []
        self.model = ""
        self.files = {}
        self.sections = []   # dicts: id, file, begin, end, poly, masks, rows, lines, rspec
        self.n = 0           # number of optimized parameters

    def spec(self, opts=None, omp=False, faults=(), **kw):
        from sim import Spec
        return Spec(self.flavour, self.argv, self.model, self.files, opts or {}, None, faults, omp)


def spectrum(rng, x0, dx, n, lines, opt):
    """rows (wavelength, flux, uncertainty, valid)"""
    rows = []
    x = x0
    c0, c1 = rng.uniform(0.5, 2.0), rng.uniform(-0.3, 0.3)
    noise = rng.choice([0.01, 0.03, 0.1])
    span = dx * (max(n, 2) - 1)
    for i in range(n):
        t = (x - x0) / span
        tau = sum(d * math.exp(-((x - c) / w) ** 2) for c, w, d in lines)
        f = (c0 + c1 * t) * math.exp(-tau)
        u = noise * rng.uniform(0.8, 1.2)
        rows.append([x, f + rng.gauss(0, u), u, 1])
        x += dx * (1.0 if not opt.get("jitter") else rng.uniform(0.8, 1.2))
    if opt.get("datamask"):
        for r in rows:
            if rng.random() < 0.12:
                r[3] = 0
    return rows


def data_text(rng, rows, cols, eol=True):
    out = []
    if rng.random() < 0.5:
        out.append("# " + "".join(rng.choice("abc xyz") for _ in range(rng.randrange(20))))
    for x, f, u, w in rows:
        s = "%.5f %.6e" % (x, f)
        if cols >= 3:
            s += " %.5e" % u
        if cols >= 4:
            s += " %d" % w
        out.append(rng.choice(["", " ", "  "]) + s)
        if rng.random() < 0.02:
            out.append("! comment")
    t = "\n".join(out)
    return t + ("\n" if eol else "")


def config(rng, flavour=None, size="small", **o):
    """o: nsec, npts, dim (target), parents, population, stop, trace, accuracy, flat, super, comments, refs"""
    c = Config()
    fl = c.flavour = flavour or rng.choice(FLAVOURS)
    P = NPAR[fl]
    nsec = o.get("nsec") or rng.choice([1] * 7 + [2] * 5 + [3] * 2 + [rng.choice([4, 5, 7])])
    target = o.get("dim") or rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
    maxpts = o.get("npts") or {"tiny": 16, "small": 36, "medium": 80}[size if nsec < 4 else "tiny"]
    if not o.get("npts") and not o.get("exact") and nsec < 4 and rng.random() < 0.015:
        maxpts = 400
    z = rng.choice([0.0, 0.0, 1.1508, 2.5, 0.01])
    names = ["L%d" % i for i in range(60)]
    rng.shuffle(names)
    snames = rng.sample(["C_I_1560", "Fe_II_1608", "s", "alpha", "B", "x1", "H_I"], nsec)
    prev_lines = []   # (id, optimized mask per parameter)
    left = target
    nopt = 0
    secs = []
    for si in range(nsec):
        n = o.get("exact") or rng.randrange(max(3, maxpts // 3), maxpts + 1)
        if o.get("short") and si == 0:
            n = rng.choice([1, 2])      # too few data points for a convolution
        rest = rng.choice([1215.67, 1560.3092, 1608.4508, 2796.3543, 3358.6])
        R = 100.0 if o.get("exact") else rng.choice([10.0, 30.0, 50.0, 55.5, 100.0])
        cen = rest * (1 + z)
        h = 0.5 * cen / (R * 1000.0)
        f = rng.uniform(1.1, 3.2) if (o.get("super") or (o.get("super") is None and rng.random() < 0.3)) else rng.uniform(0.25, 0.95)
        if not o.get("exact") and o.get("super") is None:
            # a line spread function much wider or much narrower than a pixel
            u = rng.random()
            f = rng.uniform(0.015, 0.25) if u < 0.06 else rng.uniform(3.2, 30.0) if u < 0.1 else f
        dx = f * h
        span = dx * (max(n, 4) - 1)
        x0 = cen - span * rng.uniform(0.35, 0.65)
        nl = rng.choice([1, 1, 2, 2, 3] * 5 + [6])
        km = span / cen * 299792.458   # section width in km/s
        flat = o.get("flat")
        lines, texts, shapes = [], [], []
        # resolution
        if left > 0 and rng.random() < 0.25 and not flat:
            rtxt = [num(rng, R), num(rng, R * 0.9), num(rng, R * 1.1), "1", ""]
            if rng.random() < 0.1:
                rtxt[1:3] = rtxt[2:0:-1]
            left -= 1
            nopt += 1
        elif si > 0 and rng.random() < 0.3 and o.get("refs", True):
            rtxt = ["0", "0", "0", "0", secs[rng.randrange(si)]["id"]]
        else:
            rtxt = [num(rng, R), "0", "0", "0", ""]
        for li in range(nl):
            v = rng.uniform(-0.3, 0.3) * km
            b = rng.uniform(0.03, 0.12) * km
            if f <= 1:
                b = max(b, 0.5)
            depth = rng.uniform(0.3, 2.0)
            lam = rest * (1 + rng.uniform(-0.05, 0.05) * span / cen)
            shapes.append((lam * (1 + z) * (1 + v / 299792.458), b / 299792.458 * cen, depth))
            fosc = rng.uniform(0.02, 0.5)
            # the log column density giving this depth at the line centre
            col = math.log10(depth * b / (1.497e-15 * fosc * lam))
            vals = [lam, fosc, z, v, b, col] + ([rng.choice([6.265e8, 1e7, 2e8 if fl == "oregano" else 0.0])] if P == 7 else []) + \
                ([rng.choice([-1300.0, 1330.0, 200.0]), rng.uniform(-20, 20)] if P == 8 else [])
            if flat:
                vals[0] = rest * 3.0      # the line lies outside the data: no influence
            spread = [0.2 * span / (1 + z), 0.1 * fosc, 0.05 * span / cen, 0.25 * km, 0.8 * b, 0.8] + ([1e8] if P == 7 else []) + ([0.0, 100.0] if P == 8 else [])
            order = [3, 4, 5] + ([7, 6] if P == 8 else []) + [0, 2, 1] + ([6] if P == 7 else [])
            rows = []
            want = set()
            for k in order:
                if left > 0 and rng.random() < (0.8 if k in (3, 4, 5) else 0.15) and spread[k] > 0:
                    want.add(k)
                    left -= 1
            for k in range(P):
                ref = ""
                if prev_lines and o.get("refs", True) and k not in want and k not in (0, 1, 6) and rng.random() < 0.35:
                    ref = rng.choice(prev_lines)[0]
                    # the sign of optimize and bounds is irrelevant for a referenced parameter
                    rows.append(["0", "0", "0", rng.choice(["0", "0", "1"]), ref])
                    continue
                x = vals[k]
                if k in want:
                    a, bb = x - spread[k] * rng.uniform(0.3, 1.0), x + spread[k] * rng.uniform(0.3, 1.0)
                    if k == 4:
                        a = max(a, 0.05 * b)
                    if k == 1:
                        a = max(a, 0.001)
                    if k == 6 and P == 7:
                        a = max(a, 1e6)
                    if rng.random() < 0.1:
                        a, bb = bb, a     # reversed bounds are swapped by the programs
                    rows.append([num(rng, x, 8), "%.9g" % a, "%.9g" % bb, "1", ""])
                    nopt += 1
                else:
                    rows.append([num(rng, x, 8), "0", "0", "0", ""])
            lines.append({"id": names[len(prev_lines) + len(lines)], "rows": rows})
        for l in lines:
            prev_lines.append((l["id"],))
        opt = {"datamask": rng.random() < 0.25, "jitter": rng.random() < 0.2}
        rows = spectrum(rng, x0, dx, n, shapes, opt)
        poly = o.get("poly") if o.get("poly") is not None else rng.choice([0, 1, 1, 2, 3, 4])
        cols = 4 if opt["datamask"] else rng.choice([3, 3, 3, 4, 4, 2])
        masks = []
        while rng.random() < (0.5 if masks else 0.3) and n > 14:
            i = rng.randrange(n - 3)
            k = i + rng.randrange(3)
            a, b = rows[i][0] - dx * 0.3, rows[k][0] + dx * 0.3
            if rng.random() < 0.4:      # the bounds are wavelengths of the data, as they are written
                a = float("%.5f" % rows[i][0])
            if rng.random() < 0.4:
                b = float("%.5f" % rows[k][0])
            masks.append((a, b))
        valid = [r for r in rows if r[3] and not any(a <= r[0] <= b for a, b in masks)]
        if len(valid) <= 3 * poly + 2:
            poly, masks = rng.choice([0, 0, 1]) if n < 3 else 1, []
        begin, end = (rows[0][0] - 0.5 * dx, rows[-1][0] + 0.5 * dx)
        if rng.random() < 0.15:
            begin, end = 0, 1e9
        elif rng.random() < 0.15 and n > 8:
            begin, end = float("%.5f" % rows[1][0]), float("%.5f" % rows[-2][0])
        secs.append({"id": snames[si], "file": "data/s%d.dat" % si, "begin": begin, "end": end, "poly": poly, "masks": masks,
                     "rows": rows, "cols": cols, "lines": lines, "r": rtxt, "dx": dx, "sup": f > 1})
    if nopt == 0:
        r = secs[0]["lines"][0]["rows"]
        x = float(r[5][0]) if not r[5][4] else 12.5
        r[5] = [num(rng, x), "%.6g" % (x - 1), "%.6g" % (x + 1), "1", ""]
        nopt = 1
    if o.get("refs", True) and rng.random() < 0.6:
        turn(rng, secs, P)
    c.sections, c.n = secs, nopt
    for s in secs:
        c.files[s["file"]] = data_text(rng, s["rows"], s["cols"], rng.random() < 0.8)
    c.model = render(rng, secs, o.get("comments"))
    par = o.get("parents") or rng.choice([2, 3, 3, 4, 5, 6])
    pop = o.get("population") or par + rng.choice([1, par, par, 2 * par, rng.randrange(1, 8)])
    c.argv = ["./" + fl, str(o.get("seed") or rng.choice([rng.getrandbits(64), rng.getrandbits(64), rng.getrandbits(20), rng.getrandbits(20), 1, 1, rng.choice([0, 2 ** 64 - 1])])), str(par), str(pop),
              "%.3g" % (o.get("step") or rng.choice([0.3, 0.5, 1.0, 2.0])),
              "%.3g" % (o.get("accuracy") or rng.choice([0.5, 0.1, 0.03, 0.01, 1e-4])),
              str(o["stop"] if o.get("stop") is not None else rng.choice([1, 2, 3, 5, 8, 12, 20, 40])),
              str(o["trace"] if o.get("trace") is not None else rng.choice([0, 1, 1, 2, 3, 7]))]
    return c


def turn(rng, secs, P):
    """turns some references around: what is referred to refers to what refers to it, so that references to later sections and lines arise"""
    def flip(rows):
        for i in list(rows):
            if rows[i][4] and rng.random() < 0.5:
                root = i
                while rows[root][4]:
                    root = rows[root][4]
                rows[i][:], rows[root][:] = rows[root][:], ["0", "0", "0", rng.choice(["0", "1"]), i]
    flip({s["id"]: s["r"] for s in secs})
    for k in range(P):
        flip({l["id"]: l["rows"][k] for s in secs for l in s["lines"]})


def render(rng, secs, comments=None):
    """the text of a model definition"""
    out = []
    comments = rng.random() < 0.5 if comments is None else comments

    def filler():
        if comments and rng.random() < 0.4:
            out.append(rng.choice(["", "   ", "% comment", "  % {not a section} %%", "%", "\t"]))
    if comments:
        out.append(rng.choice(["# Title", "Some text outside of sections", "", "<b>markup & more</b>", "% comment"]))
    for s in secs:
        filler()
        out.append("{" if rng.random() < 0.8 else "text before { ")
        filler()
        out.append("  %s   %s  %.10g %.10g  %d%s" % (s["id"], s["file"], s["begin"], s["end"], s["poly"], "".join("  %.6f %.6f" % m for m in s["masks"])))
        filler()
        out.append("  " + " ".join(s["r"]).rstrip())
        for l in s["lines"]:
            filler()
            out.append("  " + l["id"] + (" % line" if rng.random() < 0.2 else ""))
            for r in l["rows"]:
                filler()
                out.append(rng.choice(["  ", "", "\t"]) + rng.choice([" ", "   ", "\t"]).join(r).rstrip() + rng.choice(["", "", " ", " % x"]))
        filler()
        out.append("}")
    if comments:
        out.append(rng.choice(["", "trailing text", "% the end"]))
    return "\n".join(out) + ("\n" if rng.random() < 0.85 else "")


SCHED_KINDS = ["rtc0", "rtc1", "rtc2", "rand", "rand", "rand", "rr", "pct", "pct", "stall"]


def schedule(rng, steps):
    """options of a seeded schedule for a run of about `steps` steps"""
    k = rng.choice(SCHED_KINDS)
    o = {"sseed": rng.getrandbits(32)}
    if k == "rtc0":
        o.update(policy=0, order=0)
    elif k == "rtc1":
        o.update(policy=0, order=1)
    elif k == "rtc2":
        o.update(policy=0, order=2)
    elif k == "rand":
        o.update(policy=1, p=min(0.3, 10 ** rng.uniform(-1, 4.5) / max(steps, 100)), syncp=rng.choice([0.0, 0.3, 0.8]))
    elif k == "rr":
        o.update(policy=2, quantum=int(10 ** rng.uniform(0.3, 4.5)))
    elif k == "pct":
        o.update(policy=3, d=rng.choice([1, 2, 3, 5, 10, 30]), len=max(1000, steps))
    elif k == "stall":
        o.update(policy=4, p=min(0.3, 10 ** rng.uniform(0, 3.5) / max(steps, 100)), syncp=0.3)
    return o


def environment(rng):
    """seeded surroundings that must never matter: memory, layout, clock, entropy, chunking"""
    return {"mseed": rng.getrandbits(32), "ioseed": rng.getrandbits(32), "eseed": rng.getrandbits(32), "junk": rng.randrange(7),
            "recycle": rng.randrange(3), "layout": rng.choice([0, rng.randrange(1, 4096)]), "clock": rng.randrange(1, 4000000000),
            "ncpu": rng.choice([1, 2, 4, 64]), "env": rng.getrandbits(30), "stdout": rng.choice([0, 0, 1]), "rchunk": rng.choice([0, 1, 7, 100, 4000]), "wchunk": rng.choice([0, 1, 7, 100, 4000])}
