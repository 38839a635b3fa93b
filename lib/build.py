"""Builds the simulator and the simulated programs from /repo's current working tree (cached by content)."""
import hashlib, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESPECIA_REPO", "/repo")
MAIN = os.path.join(REPO, "src/main")
BUILD = os.path.join(VERIF, ".build")
LAPACK = ["/lib/x86_64-linux-gnu/liblapack.so.3", "/lib/x86_64-linux-gnu/libblas.so.3"]
SIMFLAGS = "-std=gnu++17 -O2 -g1 -fPIC -w -c".split()
APPFLAGS = ("-std=gnu++11 -pedantic -O2 -DNDEBUG -g1 -fPIC -fsanitize=thread -fno-gnu-unique "
            "-ftls-model=global-dynamic -pthread -w -c").split()
FLAVOURS = ["azafran", "curcuma", "oregano", "mascada"]
EXTRACT = ["ecom", "edat", "elog", "emes", "emod"]
TOOLS = EXTRACT + ["ezip"]
UTILS = ["airtovac", "vactoair", "helicorr"]


class BuildError(Exception):
    pass


_lock = threading.Lock()
_hash_cache = {}
_locks = {}


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _tree_hash(d, pats):
    key = (d, pats)
    if key in _hash_cache:
        return _hash_cache[key]
    out = []
    for root, ds, fs in sorted(os.walk(d)):
        for f in sorted(fs):
            if f.endswith(pats):
                p = os.path.join(root, f)
                out.append(os.path.relpath(p, d) + ":" + hashlib.sha256(open(p, "rb").read()).hexdigest())
    r = _sha(*out)
    _hash_cache[key] = r
    return r


def _run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))


def _obj(src, flags, key, post=None):
    """compile src once per content key"""
    h = _sha(key, os.path.relpath(src, "/"), " ".join(flags), open(src, "rb").read(), post or "")
    o = os.path.join(BUILD, "obj", h + ".o")
    with _lock:
        lk = _locks.setdefault(o, threading.Lock())
    with lk:
        return o if os.path.exists(o) else _compile(src, flags, post, o)


def _compile(src, flags, post, o):
    os.makedirs(os.path.dirname(o), exist_ok=True)
    t = o + ".%d.%d.tmp.o" % (os.getpid(), threading.get_ident())
    _run(["g++"] + flags + [src, "-o", t])
    if post == "main":
        _run(["objcopy", "--redefine-sym", "main=sim_app_main", t])
    os.replace(t, o)
    return o


def gen_config():
    s = open(os.path.join(MAIN, "cxx-filtered/config.h")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    ver = re.search(r"project\(\s*especia\s+VERSION\s+([\w.]+)", cm)
    vals = {"PROJECT_NAME": "especia", "PROJECT_VERSION": ver[1] if ver else "0", "PROJECT_REVISION": "sim",
            "CMAKE_SYSTEM": "Simulator", "CMAKE_CXX_COMPILER_ID": "GNU", "CMAKE_CXX_COMPILER_VERSION": "sim",
            "PROJECT_TITLE": "Especia", "PROJECT_DOI": "doi", "PROJECT_DOI_HTML": "<a>doi</a>", "PROJECT_URL": "url"}
    t = re.sub(r"@(\w+)@", lambda m: vals.get(m[1], m[1]), s)
    d = os.path.join(BUILD, "gen", _sha(t))
    p = os.path.join(d, "config.h")
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(t)
        os.replace(tmp, p)
    return d


CORE = {"flavour": ["decompose", "optimizer", "profiles", "readline", "runner", "section", "dataio", "equations"],
        "tool": ["dataio", "equations", "readline"]}
WRAP = ["memcpy", "memmove", "memset", "malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"]


def plugin(name, omp=False):
    """path of the shared object of a program or harness, built from the working tree"""
    gen = gen_config()
    flags = APPFLAGS + ["-I", gen, "-I", os.path.join(MAIN, "cxx/core")] + (["-fopenmp"] if omp else [])
    if name in FLAVOURS or name in TOOLS:
        src, kind = os.path.join(MAIN, "cxx/apps", name + ".cxx"), "flavour" if name in FLAVOURS else "tool"
    elif name in UTILS:
        src, kind = os.path.join(MAIN, "cxx/util", name + ".cxx"), "tool"
    else:
        src, kind = os.path.join(VERIF, "harness", name + ".cxx"), "flavour"
    # all headers below src/main count as dependencies of every object
    hkey = _sha(_tree_hash(MAIN, (".h",)), _tree_hash(os.path.join(VERIF, "harness"), (".h",)))
    jobs = [(src, flags, hkey, "main")]
    core = sorted(f for f in os.listdir(os.path.join(MAIN, "cxx/core")) if f.endswith(".cxx"))
    jobs += [(os.path.join(MAIN, "cxx/core", f), flags, hkey, None) for f in core]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _obj(*j), jobs))
    h = _sha(*objs, "link3")
    so = os.path.join(BUILD, "so", "%s-%s.so" % (name + ("-omp" if omp else ""), h))
    if os.path.exists(so):
        return so
    os.makedirs(os.path.dirname(so), exist_ok=True)
    tag = "%d.%d" % (os.getpid(), threading.get_ident())
    ver = os.path.join(BUILD, "export.map.%s" % tag)
    open(ver, "w").write("{ global: sim_app_main; local: *; };\n")
    ar = so + "." + tag + ".a"
    tmp = so + "." + tag + ".tmp"
    libs = []
    if len(objs) > 1:
        _run(["ar", "rcs", ar] + objs[1:])
        libs = [ar] + LAPACK
    _run(["g++", "-shared", "-o", tmp, objs[0]] + libs + ["-Wl,--version-script=" + ver, "-Wl,-Bsymbolic"]
         + ["-Wl,--wrap=" + w for w in WRAP] + ["-pthread"])
    if libs:
        os.unlink(ar)
    os.unlink(ver)
    os.replace(tmp, so)
    return so


def simulator():
    d = os.path.join(VERIF, "sim")
    hkey = _tree_hash(d, (".h",))
    srcs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cxx"))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda s: _obj(s, SIMFLAGS, hkey), srcs))
    exe = os.path.join(BUILD, "so", "especia-sim-" + _sha(*objs))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        _run(["g++", "-rdynamic", "-o", tmp] + objs + ["-Wl,--no-as-needed"] + LAPACK + ["-Wl,--as-needed", "-ldl", "-pthread"])
        os.replace(tmp, exe)
    return exe


def build(specs):
    """specs: list of (name, omp). Returns (simulator path, {spec: path})."""
    os.makedirs(BUILD, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        fs = ex.submit(simulator)
        ps = {s: ex.submit(plugin, *s) for s in specs}
        return fs.result(), {s: p.result() for s, p in ps.items()}


if __name__ == "__main__":
    names = sys.argv[1:] or FLAVOURS + TOOLS + UTILS
    print(build([(n, False) for n in names] + [(n, True) for n in names if n in FLAVOURS]))
