"""Parser of result documents, and a reference reader of model definitions and spectra."""
import re

PM = " &plusmn; "


def block(o, name):
    """lines between <name> and </name> (first such block), or None"""
    ls = o.split("\n")
    try:
        a = ls.index("<%s>" % name)
        b = ls.index("</%s>" % name, a)
    except ValueError:
        return None
    return ls[a + 1:b]


class Doc:
    def __init__(self, out):
        o = out.decode("latin-1") if isinstance(out, bytes) else out
        self.text = o
        self.command = block(o, "command")
        self.model = block(o, "model")
        log = block(o, "log")
        self.log = [[float(x) for x in l.split()] for l in log] if log is not None else None
        self.logtext = log
        self.message = block(o, "message")
        d = block(o, "data")
        self.data = None
        self.sections, self.lines = [], []
        if d is not None:
            self.data = [[]]
            for l in d:
                if l.strip():
                    self.data[-1].append(l.split())
                else:
                    self.data.append([])
            t = o[o.index("</data>"):]
            tb = re.findall(r"<tbody align=\"left\">(.*?)</tbody>", t, re.S)
            rows = [[re.findall(r"<td>(.*?)</td>", r, re.S) for r in re.findall(r"<tr>(.*?)</tr>", b, re.S)] for b in tb]
            self.sections, self.lines = (rows + [[], []])[:2]
        self.complete = o.endswith("</html>\n") and d is not None


def value(cell):
    """(value, uncertainty or None)"""
    v = cell.replace("<strong>", "").replace("</strong>", "").split(PM)
    return float(v[0]), (float(v[1]) if len(v) > 1 else None)


class Syntax(Exception):
    pass


def read_model(text, nparam):
    """sections: dicts id, file, begin, end, nle, masks, r (parameter), lines [(id, [parameters])]
    parameter: dict val lo up opt ref; parameters are resolved later"""
    body = []
    for l in text.split("\n"):
        l = l.split("%", 1)[0]
        if l.strip():
            body.append(l)
    t = "\n".join(body) + "\n"
    secs = []
    pos = 0
    while True:
        e = t.find("}", pos)
        if e < 0:
            if "{" in t[pos:]:
                raise Syntax("unterminated")
            break
        b = t.find("{", pos, e)
        if b < 0:
            raise Syntax("no begin")
        secs.append(read_section(t[b + 1:e], nparam))
        pos = e + 1
    return secs


def par(l):
    f = l.split()
    if len(f) < 4:
        raise Syntax("parameter " + l)
    return {"val": float(f[0]), "lo": min(float(f[1]), float(f[2])), "up": max(float(f[1]), float(f[2])), "opt": f[3] == "1",
            "ref": f[4] if len(f) > 4 else ""}


def read_section(t, nparam):
    ls = [l for l in t.split("\n") if l.strip()]
    h = ls[0].split()
    s = {"id": h[0], "file": h[1], "begin": float(h[2]), "end": float(h[3]), "nle": int(h[4]),
         "masks": [(float(h[k]), float(h[k + 1])) for k in range(5, len(h) - 1, 2)], "r": par(ls[1]), "lines": []}
    k = 2
    while k < len(ls):
        ps = [par(l) for l in ls[k + 1:k + 1 + nparam]]
        if len(ps) < nparam:
            raise Syntax("line")
        s["lines"].append((ls[k].split()[0], ps))
        k += 1 + nparam
    return s


def resolve(secs):
    """root (section or line parameter) of every parameter: dict key -> root key, and parameters by key"""
    P = {}
    for s in secs:
        P[("s", s["id"], 0)] = s["r"]
        for i, ps in s["lines"]:
            for k, p in enumerate(ps):
                P[("l", i, k)] = p
    root = {}
    for key in P:
        k, seen = key, set()
        while P[k]["ref"]:
            if k in seen:
                raise Syntax("cycle")
            seen.add(k)
            k = (k[0], P[k]["ref"], k[2])
            if k not in P:
                raise Syntax("reference")
        root[key] = k
    return P, root


def free(p):
    return p["opt"] and not p["ref"] and p["lo"] != p["up"]


def spectrum(text, a, b):
    """rows [wavelength, flux, uncertainty, valid] inside the limits"""
    rows = []
    for l in text.split("\n"):
        if not l:
            break
        if l[0] in "#%!":
            continue
        f = l.split()
        x, y = float(f[0]), float(f[1])
        if a <= x <= b:
            u = float(f[2]) if len(f) > 2 else 1.0
            w = (f[3] != "0") if len(f) > 3 else True
            rows.append([x, y, u, w])
    return rows
