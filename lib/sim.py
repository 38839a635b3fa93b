"""Client of the simulator: one Run request = one simulated execution."""
import os, struct, subprocess, threading, queue, hashlib, json, base64
from concurrent.futures import ThreadPoolExecutor

NW = int(os.environ.get("SIM_WORKERS", "8"))


class SimError(Exception):
    pass


class Spec:
    """Everything that determines one simulated execution."""
    __slots__ = ("prog", "omp", "argv", "stdin", "files", "opts", "sched", "faults")

    def __init__(self, prog, argv, stdin=b"", files=None, opts=None, sched=None, faults=(), omp=False):
        self.prog, self.omp, self.argv = prog, bool(omp), [str(a) for a in argv]
        self.stdin = stdin.encode() if isinstance(stdin, str) else stdin
        self.files = {k: (v.encode() if isinstance(v, str) else v) for k, v in (files or {}).items()}
        self.opts = dict(opts or {})
        self.sched = sched
        self.faults = [tuple(f) for f in faults]

    def copy(self, **kw):
        s = Spec(self.prog, self.argv, self.stdin, self.files, self.opts, self.sched, self.faults, self.omp)
        for k, v in kw.items():
            if k == "opts":
                s.opts.update(v)
                s.opts = {a: b for a, b in s.opts.items() if b is not None}
            else:
                setattr(s, k, v)
        return s

    def to_json(self):
        def enc(b):
            try:
                return b.decode("ascii")
            except UnicodeDecodeError:
                return {"base64": base64.b64encode(b).decode()}
        return {"prog": self.prog, "omp": self.omp, "argv": self.argv, "stdin": enc(self.stdin),
                "files": {k: enc(v) for k, v in self.files.items()}, "opts": self.opts,
                "sched": [list(x) for x in self.sched] if self.sched is not None else None,
                "faults": [list(f) for f in self.faults]}

    @staticmethod
    def from_json(d):
        def dec(v):
            return base64.b64decode(v["base64"]) if isinstance(v, dict) else v.encode()
        return Spec(d["prog"], d["argv"], dec(d["stdin"]), {k: dec(v) for k, v in d["files"].items()}, d["opts"],
                    [tuple(x) for x in d["sched"]] if d["sched"] is not None else None, [tuple(f) for f in d["faults"]], d["omp"])


def flt(kind, name="", a=0, b=0, c=0):
    return (kind, name, int(a), int(b), int(c))


EIO, ENOSPC, EPIPE, EISDIR, EAGAIN, EINTR, ENOENT, EACCES, EMFILE = 5, 28, 32, 21, 11, 4, 2, 13, 24


class Result:
    __slots__ = ("kind", "msg", "code", "steps", "hash", "pre_lost", "base", "out", "err", "txt", "ev", "pre", "race", "rec")

    def outcome(self):
        """what a user sees"""
        return (self.kind, self.code, self.out, self.err)

    def digest(self):
        h = hashlib.sha256()
        for x in (self.kind, self.code, self.steps, self.hash, self.out, self.err, self.rec, self.race):
            h.update(repr(x).encode())
        return h.hexdigest()

    def c(self, k):
        return self.txt.get(k, 0)


def _tlv(k, v):
    k = k.encode()
    if not isinstance(v, bytes):
        v = str(v).encode()
    return struct.pack("B", len(k)) + k + struct.pack("<I", len(v)) + v


class Server:
    def __init__(self, exe, libs):
        env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME")}
        env["LC_ALL"] = "C"
        self.p = subprocess.Popen([exe] + libs, stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")

    def run(self, lib, s):
        o = [_tlv("lib", lib), _tlv("argv", b"".join(a.encode() + b"\0" for a in s.argv)), _tlv("stdin", s.stdin)]
        o += [_tlv("file:" + k, v) for k, v in s.files.items()]
        o += [_tlv("opt:" + k, v) for k, v in s.opts.items()]
        if s.sched is not None:
            o.append(_tlv("sched", " ".join("%d:%d" % x for x in s.sched)))
        o += [_tlv("fault", "|".join(str(x) for x in f)) for f in s.faults]
        b = b"".join(o)
        self.p.stdin.write(struct.pack("<I", len(b)) + b)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise SimError("simulator process ended")
        n = struct.unpack("<I", h)[0]
        d = self.p.stdout.read(n)
        return self.parse(d)

    @staticmethod
    def parse(d):
        r = Result()
        r.ev, r.pre, r.race, r.rec, r.out, r.err, r.txt, r.msg = [], [], [], b"", b"", b"", {}, ""
        r.code = r.steps = r.hash = r.pre_lost = r.base = 0
        p = 0
        while p < len(d):
            kl = d[p]
            k = d[p + 1:p + 1 + kl].decode()
            p += 1 + kl
            n = struct.unpack_from("<I", d, p)[0]
            p += 4
            v = d[p:p + n]
            p += n
            if k == "kind":
                r.kind = v.decode()
            elif k == "msg":
                r.msg = v.decode(errors="replace")
            elif k == "nums":
                r.code, r.steps, r.hash, r.pre_lost, r.base = struct.unpack("<8q", v)[:5]
            elif k == "out":
                r.out = v
            elif k == "err":
                r.err = v
            elif k == "txt":
                r.txt = {a: int(b) for a, b in (l.split("=") for l in v.decode().split("\n") if l)}
            elif k == "ev":
                r.ev = list(struct.iter_unpack("<I4xqQQQQ", v))
            elif k == "pre":
                r.pre = list(struct.iter_unpack("<QQ", v))
            elif k == "race":
                r.race = list(struct.iter_unpack("<QQQIIII", v))
            elif k == "rec":
                r.rec = v
        if r.kind in ("simerror", "noplugin"):
            raise SimError(r.kind + " " + r.msg)
        return r

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.wait()


class Pool:
    """NW simulator processes; run(spec) from any thread; map keeps order."""

    def __init__(self, exe, plugins, n=NW):
        self.exe, self.plugins, self.n = exe, plugins, n
        self.q = queue.LifoQueue()
        self.all = []
        libs = sorted(plugins.values())
        for _ in range(n):
            s = Server(exe, libs)
            self.all.append(s)
            self.q.put(s)
        self.ex = ThreadPoolExecutor(n)
        self.lock = threading.Lock()
        self.runs = 0
        self.sim_ns = 0
        self.hashes = set()
        self.counters = {}

    def lib(self, s):
        return self.plugins[(s.prog, s.omp)]

    def run(self, s):
        srv = self.q.get()
        try:
            r = srv.run(self.lib(s), s)
        finally:
            self.q.put(srv)
        with self.lock:
            self.runs += 1
            self.sim_ns += r.c("sim_ns")
            self.hashes.add((r.hash, r.steps))
            for k, v in r.txt.items():
                if k.startswith(("fault.", "omp.", "lapack.", "time.", "entropy.", "cond.", "mutex.", "h.")) or k in ("switches", "preemptions", "threads"):
                    self.counters[k] = self.counters.get(k, 0) + v
            if r.kind == "crash":
                self.counters["fault.kill"] = self.counters.get("fault.kill", 0) + 1
        return r

    def map(self, specs):
        return list(self.ex.map(self.run, specs))

    def fresh(self, s):
        """the same execution in a new simulator process"""
        srv = Server(self.exe, sorted(self.plugins.values()))
        try:
            return srv.run(self.lib(s), s)
        finally:
            srv.close()

    def close(self):
        self.ex.shutdown()
        for s in self.all:
            s.close()
