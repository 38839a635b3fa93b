"""Seeded search: many simulated runs of many generated cases; gate, minimise, report, write evidence.

A check module defines
  PROP, LEVEL, RULE, BUILD (list of (program, omp)), BUDGET {tier: (cases, seconds)}
  gen(rng, i, tier) -> case                 JSON-able, complete: the same case is the same set of executions
  evaluate(case, R) -> [problem]            problem = dict(cls=..., text=..., key=...); R is a Runs object
and optionally
  shrink(case) -> iterable of simpler cases (default: lib/shrink.py)
  ASSUME (list of str), REAL / STUB (lists of str)
"""
import copy, json, os, re, random, sys, time, signal, pickle, traceback, hashlib, subprocess
import build, sim, shrink as shrinker
from common import FUEL

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(os.environ.get("SIM_WORKERS", "8"))

REAL = ["all code of the program under test in /repo (unmodified sources, compiled from the working tree)",
        "libstdc++ iostreams, containers, locale and exception runtime above the seams"]
STUB = ["thread creation, join and scheduling (std::thread, OpenMP runtime): seeded cooperative scheduler with preemption at memory accesses",
        "read, write, open, close, clocks, entropy, process identity: simulated file system, pipes and virtual time",
        "malloc and operator new: simulated heap with seeded layout, contents, recycling and failures"]


class Slow(Exception):
    """an undisturbed run needs more steps than a check spends on it: nothing is said about it (P13 decides termination)"""


LIMITS = ("step limit", "cpu time limit")
SLOW_OK = re.compile("^(rec_|eval_)?(curcuma|oregano|mascada|azafran)$")


def judge(mod, case, R):
    try:
        return mod.evaluate(case, R)
    except Slow:
        R.note("slow runs left out")
        R.trivial()
        return []


class Runs:
    """Executes specs in one simulator process and counts what was covered."""

    def __init__(self, exe, plugins):
        self.exe, self.plugins = exe, plugins
        self.srv = None
        self.runs = 0
        self.sim_ns = 0
        self.steps = 0
        self.sched = set()
        self.kinds = {}
        self.counters = {}
        self.sigs = set()
        self.evals = 0
        self.samples = []

    def __call__(self, s, fresh=False):
        if fresh:
            srv = sim.Server(self.exe, sorted(self.plugins.values()))
            try:
                r = srv.run(self.plugins[(s.prog, s.omp)], s)
            finally:
                srv.close()
        else:
            if self.srv is None:
                self.srv = sim.Server(self.exe, sorted(self.plugins.values()))
            r = self.srv.run(self.plugins[(s.prog, s.omp)], s)
        self.count(r)
        if r.kind == "hang" and r.msg.startswith(LIMITS) and s.opts.get("fuel") == FUEL and not s.faults and SLOW_OK.match(s.prog):
            raise Slow()
        return r

    def count(self, r):
        self.runs += 1
        self.sim_ns += r.c("sim_ns")
        self.steps += r.steps
        self.sched.add(hash((r.hash, r.steps)) & 0xffffffffffff)
        k = r.kind if r.kind != "exit" else "exit %d" % r.code
        self.kinds[k] = self.kinds.get(k, 0) + 1
        for k, v in r.txt.items():
            if k.startswith(("fault.", "omp.", "lapack.", "time.", "entropy.")) or k in ("switches", "preemptions", "threads"):
                self.counters[k] = self.counters.get(k, 0) + v
        if r.kind == "crash":
            self.counters["fault.kill"] = self.counters.get("fault.kill", 0) + 1

    def external(self, desc, fn):
        """a run of a script under the process stand-ins"""
        r = fn()
        self.runs += 1
        self.sched.add(hash((tuple(x.split(" ")[0] for x in r["log"]), r["status"], desc)) & 0xffffffffffff)
        k = "exit %s" % r["status"]
        self.kinds[k] = self.kinds.get(k, 0) + 1
        return r

    def note(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def sig(self, *x):
        """one evaluated case; x identifies it among distinct ones"""
        self.evals += 1
        self.sigs.add(hashlib.sha256(repr(x).encode()).digest()[:8])

    def trivial(self):
        self.evals += 1

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def stats(self):
        return {k: getattr(self, k) for k in ("runs", "sim_ns", "steps", "sched", "kinds", "counters", "sigs", "evals", "samples")}

    def merge(self, st):
        for k in ("runs", "sim_ns", "steps", "evals"):
            setattr(self, k, getattr(self, k) + st[k])
        self.sched |= st["sched"]
        self.sigs |= st["sigs"]
        for k in ("kinds", "counters"):
            d = getattr(self, k)
            for a, b in st[k].items():
                d[a] = d.get(a, 0) + b
        self.samples += st["samples"]

    def close(self):
        if self.srv:
            self.srv.close()
            self.srv = None


def problem(cls, text, key=None):
    return {"cls": cls, "text": text, "key": key}


def known(prop):
    """suppressed findings: lines `KNOWN property=<id> key=<key> <text>` of known-findings.txt"""
    out = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            f = l.split(None, 3)
            if len(f) >= 3 and f[0] == "finding:" and f[1] == "property=" + prop and f[2].startswith("key="):
                out[f[2][4:]] = f[3].strip() if len(f) > 3 else ""
    except FileNotFoundError:
        pass
    return out


def case_rng(prop, seed, i):
    return random.Random("%s/%d/%d" % (prop, seed, i))


def _worker(mod, w, exe, plugins, seed, tier, total, deadline, kn, out):
    R = Runs(exe, plugins)
    done = 0
    res = {"found": None, "error": None, "known": {}}
    i = w
    try:
        while i < total and time.time() < deadline:
            if done and os.path.exists(out + ".stop"):
                break
            rng = case_rng(mod.PROP, seed, i)
            case = mod.gen(rng, i, tier)
            if case is not None:
                ps = judge(mod, case, R)
                new = []
                for p in ps:
                    if p["key"] in kn:
                        res["known"][p["key"]] = p["text"]
                    else:
                        new.append(p)
                if new:
                    res["found"] = (i, case, new)
                    open(out + ".stop", "w").close()
                    break
            done += 1
            i += NW
    except Exception:
        res["error"] = "case %d\n%s" % (i, traceback.format_exc())
        open(out + ".stop", "w").close()
    res["done"] = done
    res["stats"] = R.stats()
    R.close()
    with open(out + ".%d" % w, "wb") as f:
        pickle.dump(res, f)


def search(mod, exe, plugins, seed, tier, total, seconds, kn):
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix="verif-")
    out = os.path.join(d, "w")
    deadline = time.time() + seconds
    pids = []
    sys.stdout.flush()
    for w in range(NW):
        p = os.fork()
        if p == 0:
            try:
                _worker(mod, w, exe, plugins, seed, tier, total, deadline, kn, out)
            finally:
                os._exit(0)
        pids.append(p)
    for p in pids:
        os.waitpid(p, 0)
    R = Runs(exe, plugins)
    found, errors, done, knowns = [], [], 0, {}
    for w in range(NW):
        try:
            with open(out + ".%d" % w, "rb") as f:
                r = pickle.load(f)
        except FileNotFoundError:
            errors.append("worker %d ended without a report" % w)
            continue
        R.merge(r["stats"])
        done += r["done"]
        knowns.update(r["known"])
        if r["found"]:
            found.append(r["found"])
        if r["error"]:
            errors.append(r["error"])
    shutil.rmtree(d)
    found.sort(key=lambda f: f[0])
    return R, found, errors, done, knowns


def classes(ps, kn):
    return [p["cls"] for p in ps if p["key"] not in kn]


def minimise(mod, case, cls, R, kn, seconds=60):
    """greedy: take any simpler case that still shows a problem of the same class"""
    end = time.time() + seconds
    tried = 0
    gen = getattr(mod, "shrink", None) or shrinker.simpler
    progress = True
    while progress and time.time() < end:
        progress = False
        for c in gen(case, R):
            if time.time() > end:
                break
            tried += 1
            try:
                ps = judge(mod, c, R)
            except sim.SimError:
                continue
            except Exception:
                continue
            if cls in classes(ps, kn):
                case = c
                progress = True
                break
    c = explicit(mod, case, cls, R, kn)
    if c is not None:
        case = c
        i = 0
        sch = case["variants"][0]["sched"]
        k = max(1, len(sch) // 2)
        while sch and time.time() < end + 30:
            hit = False
            a = 0
            while a < len(sch) and time.time() < end + 30:
                t = copy.deepcopy(case)
                t["variants"][0]["sched"] = sch[:a] + sch[a + k:]
                tried += 1
                if cls in classes(judge(mod, t, R), kn):
                    case, sch, hit = t, t["variants"][0]["sched"], True
                else:
                    a += k
            if k == 1 and not hit:
                break
            k = max(1, k // 2)
    return case, tried


def explicit(mod, case, cls, R, kn):
    """the same case with its schedule written out as a list of preemptions"""
    vs = case.get("variants")
    if not vs or len(vs) != 1 or not isinstance(vs[0], dict) or not (vs[0].get("opts") or {}).get("policy") or vs[0].get("sched") is not None:
        return None
    key = {k: v for k, v in vs[0]["opts"].items()}
    got = []

    class Cap:
        def __call__(self, s, fresh=False):
            if all(s.opts.get(k) == v for k, v in key.items()):
                r = R(s.copy(opts={"want_pre": 1}))
                if not r.pre_lost:
                    got.append(r.pre)
            return R(s, fresh)

        def __getattr__(self, k):
            return getattr(R, k)
    judge(mod, case, Cap())
    for pre in got:
        t = copy.deepcopy(case)
        for k in shrinker.POL:
            t["variants"][0]["opts"].pop(k, None)
        t["variants"][0]["opts"]["order"] = key.get("order", 0)
        t["variants"][0]["sched"] = [list(x) for x in pre]
        if cls in classes(judge(mod, t, R), kn):
            return t
    return None


def main(mod, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    replay, out_cases, secs = None, None, None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    a = argv[:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"):
            tier = x
        elif x == "--replay":
            replay = a.pop(0)
        elif x == "--cases":
            out_cases = int(a.pop(0))
        elif x == "--seconds":
            secs = float(a.pop(0))
        elif x == "--seed":
            seed = int(a.pop(0))
    t0 = time.time()
    try:
        exe, plugins = build.build(mod.BUILD)
        getattr(mod, "prepare", lambda: None)()
    except build.BuildError as e:
        print("ERROR: the code does not build for the simulator\n%s" % e)
        return 2
    tb = time.time() - t0
    kn = known(mod.PROP)
    if replay:
        return do_replay(mod, exe, plugins, replay)
    total, seconds = mod.BUDGET[tier]
    if out_cases:
        total = out_cases
    if secs:
        seconds = secs
    t1 = time.time()
    R, found, errors, done, knowns = search(mod, exe, plugins, seed, tier, total, seconds, kn)
    wall = time.time() - t1
    rc = 0
    violations = 0
    if found:
        i, case, ps = found[0]
        G = Runs(exe, plugins)
        again = []
        for _ in range(2):
            G.close()
            again.append(judge(mod, case, G))
        if not all(set(classes(p, kn)) == set(p["cls"] for p in ps) for p in again):
            print("ERROR: the problem of case %d does not repeat exactly: %r then %r" % (i, ps, again))
            rc = 2
        else:
            violations = 1
            cls = ps[0]["cls"]
            try:
                small, tried = minimise(mod, case, cls, G, kn)
                G.close()
                fin = [p for p in judge(mod, small, G) if p["cls"] == cls and p["key"] not in kn]
            except Exception:
                fin = []
            if not fin:
                # report the case as it was found
                G.close()
                small, tried, fin = case, 0, [p for p in ps if p["cls"] == cls]
            path = write_replay(mod, seed, i, small, fin[0], tried, G)
            print("case %d seed %d: %s: %s" % (i, seed, cls, fin[0]["text"]))
            print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
            rc = 1
        G.close()
    if errors and rc != 1:
        print("ERROR: " + "\n".join(errors[:2]))
        rc = 2
    for k in sorted(kn):
        if k in knowns:
            print("KNOWN-FINDING: property=%s %s" % (mod.PROP, kn[k]))
    evidence(mod, tier, seed, R, done, total, wall, tb, violations, time.time() - t0)
    if rc == 0:
        print("%s held: %d cases, %d runs, %d distinct schedules, %.1f s" % (mod.PROP, done, R.runs, len(R.sched), time.time() - t0))
    return rc


def write_replay(mod, seed, i, case, p, tried, R):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%d-case%d.json" % (mod.PROP, seed, i))
    trace = []
    T = Tracer(R, trace)
    judge(mod, case, T)
    with open(path, "w") as f:
        json.dump({"property": mod.PROP, "seed": seed, "case_index": i, "class": p["cls"], "violation": p["text"], "case": case,
                   "minimisation_steps": tried, "executions": trace}, f, indent=1)
    return path


class Tracer:
    """Runs that also records the trace of each execution"""

    def __init__(self, R, trace):
        self.R, self.trace = R, trace

    def __call__(self, s, fresh=False):
        t = s.copy(opts={"want_pre": 1, "want_ev": 1})
        r = self.R(t, fresh)
        self.trace.append({"program": s.prog, "omp": s.omp, "argv": s.argv, "options": s.opts, "faults": [list(f) for f in s.faults],
                           "outcome": [r.kind, r.code, r.msg], "stderr": r.err.decode(errors="replace")[:400], "steps": r.steps,
                           "schedule": [list(x) for x in r.pre[:400]], "digest": self.R(s).digest(),
                           "fault_events": [list(e) for e in r.ev if e[0] == 6][:50]})
        return self.R(s, fresh)

    def external(self, desc, fn):
        r = self.R.external(desc, fn)
        d = hashlib.sha256(re.sub(r"/tmp/verif-[\w-]*", "", repr((r["status"], r["log"], sorted(r["tree"].items())))).encode()).hexdigest()
        self.trace.append({"disturbance": desc, "status": r["status"], "executions": [re.sub(r"/tmp/verif-[\w-]*", "", x) for x in r["log"][:60]], "digest": d})
        return r

    def __getattr__(self, k):
        return getattr(self.R, k)


def do_replay(mod, exe, plugins, path):
    d = json.load(open(path))
    R = Runs(exe, plugins)
    trace = []
    ps = judge(mod, d["case"], Tracer(R, trace))
    R.close()
    a = [t["digest"] for t in trace]
    b = [t["digest"] for t in d["executions"]]
    print("executions identical to the recorded ones: %s" % (a == b))
    hit = [p for p in ps if p["cls"] == d["class"]]
    for p in hit:
        print("reproduced: %s: %s" % (p["cls"], p["text"]))
    if hit:
        print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
        return 1
    print("not reproduced")
    return 0


def evidence(mod, tier, seed, R, done, total, wall, tb, violations, t):
    h = wall / 3600.0 or 1e-9
    cov = {"evaluations": R.evals, "distinct_nontrivial": len(R.sigs), "rule": mod.RULE,
           "samples": R.samples[:3] or ["none"], "cases": done, "cases_planned": total, "simulated_runs": R.runs,
           "runs_per_hour": int(R.runs / h), "cases_per_hour": int(done / h), "seed_of_case": "Random('%s/%d/<case>')" % (mod.PROP, seed),
           "simulated_seconds": R.sim_ns / 1e9, "simulated_steps": R.steps,
           "distinct_schedules": len(R.sched), "distinct_schedule_measure": "hash over the sequence of (fiber, operation, location) at every switch and synchronisation, with the number of steps",
           "faults_injected": {k: v for k, v in sorted(R.counters.items()) if k.startswith("fault.")},
           "other_counters": {k: v for k, v in sorted(R.counters.items()) if not k.startswith("fault.")},
           "outcomes": dict(sorted(R.kinds.items())), "real_components": getattr(mod, "REAL", REAL), "stub_components": getattr(mod, "STUB", STUB),
           "build_s": round(tb, 1)}
    e = {"property": mod.PROP, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
         "assumptions": getattr(mod, "ASSUME", []), "wall_s": round(t, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", mod.PROP + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(p + ".tmp", p)
