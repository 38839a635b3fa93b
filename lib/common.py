"""Shared by the checks."""
import re
from sim import Spec, flt, EIO, ENOSPC, EPIPE, EISDIR, EAGAIN, EINTR, ENOENT, EACCES, EMFILE

FLAVOURS = ["curcuma", "oregano", "mascada", "azafran"]
FUEL = 4 * 10 ** 8


def cfg_json(c):
    return {"flavour": c.flavour, "argv": c.argv, "model": c.model, "files": c.files, "n": c.n}


def spec(cfg, v=None, **o):
    """one analysis run; v: variant {opts, faults, omp, sched}"""
    # a compared run may take longer than the one it is compared with
    opts = {"fuel": FUEL, "cpu": 40} if v is None else {"fuel": 3 * FUEL, "cpu": 120}
    v = v or {}
    opts.update(v.get("opts") or {})
    opts.update(o)
    return Spec(cfg["flavour"], cfg["argv"], cfg["model"], cfg["files"], opts, v.get("sched") and [tuple(x) for x in v["sched"]] if v.get("sched") is not None else None,
                [tuple(f) for f in v.get("faults") or []], v.get("omp", False))


def show(r):
    return "%s %d %s%s" % (r.kind, r.code, r.msg, (" stderr %r" % r.err[:200].decode(errors="replace")) if r.err else "")


def diff(a, b):
    """where two byte strings differ first"""
    n = min(len(a), len(b))
    i = next((k for k in range(n) if a[k] != b[k]), n)
    if i == n and len(a) == len(b):
        return "equal"
    s = max(0, a.rfind(b"\n", 0, i) + 1)
    return "first difference at byte %d: %r against %r (lengths %d, %d)" % (i, a[s:i + 40], b[s:i + 40], len(a), len(b))


def brief(cfg):
    return " ".join(cfg["argv"]) + " on %d sections, %d parameters, %d data bytes" % (cfg["model"].count("}"), cfg.get("n", 0), sum(len(v) for v in cfg["files"].values()))


def strip_footer(o):
    i = o.rfind(b"<address>")
    return o if i < 0 else o[:i]
