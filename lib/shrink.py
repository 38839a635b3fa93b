"""Simpler cases: fewer variants, faults and options, smaller searches and models, explicit minimal schedules."""
import copy, re

POL = ("policy", "p", "syncp", "quantum", "d", "len", "order", "sseed")


def simpler(case, R):
    vs = case.get("variants")
    if vs is not None:
        if len(vs) > 1:
            for i in range(len(vs)):
                c = copy.deepcopy(case)
                c["variants"] = [vs[i]]
                yield c
            for i in range(len(vs)):
                c = copy.deepcopy(case)
                del c["variants"][i]
                yield c
        for i, v in enumerate(vs):
            yield from variant(case, i, v, R)
    if case.get("cfg"):
        yield from cfg(case)


def variant(case, i, v, R):
    f = v.get("faults") or []
    if len(f) > 1:
        for k in range(len(f)):
            c = copy.deepcopy(case)
            del c["variants"][i]["faults"][k]
            yield c
    o = v.get("opts") or {}
    if o.get("policy"):
        c = copy.deepcopy(case)
        for k in POL:
            c["variants"][i]["opts"].pop(k, None)
        yield c
    for k in list(o):
        if k not in POL and k not in ("fuel", "crash"):
            c = copy.deepcopy(case)
            del c["variants"][i]["opts"][k]
            yield c


def cfg(case):
    g = case["cfg"]
    a = g["argv"]
    if len(a) == 8:
        def put(k, x):
            c = copy.deepcopy(case)
            c["cfg"]["argv"][k] = str(x)
            return c
        try:
            stop, par, pop, tr = int(a[6]), int(a[2]), int(a[3]), int(a[7])
        except ValueError:
            return
        for s in (1, 2, stop // 2, stop - 1):
            if 0 < s < stop:
                yield put(6, s)
        if pop > par + 1 and par >= 1:
            yield put(3, par + 1)
            yield put(3, (pop + par + 1) // 2)
        if par > 2:
            c = put(2, 2)
            c["cfg"]["argv"][3] = str(max(3, pop - par + 2))
            yield c
        if a[1] != "1":
            yield put(1, 1)
        if tr > 1:
            yield put(7, 1)
    m = g["model"]
    if not isinstance(m, str):
        return
    blocks = re.split(r"(?<=\})", m)
    if len(blocks) > 2:
        for k in range(len(blocks) - 1):
            c = copy.deepcopy(case)
            c["cfg"]["model"] = "".join(blocks[:k] + blocks[k + 1:])
            yield c
    ls = m.split("\n")
    kept = [l for l in ls if l.strip() and not l.strip().startswith("%")]
    if len(kept) < len(ls):
        c = copy.deepcopy(case)
        c["cfg"]["model"] = "\n".join(kept) + "\n"
        yield c
