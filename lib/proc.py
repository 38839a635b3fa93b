"""The shell scripts of /repo under the real sh: every command they run is a stand-in (proc/stub.c) with seeded failures and kills."""
import hashlib, os, shutil, subprocess, tempfile
import build

SRC = os.path.join(build.VERIF, "proc", "stub.c")
SCRIPTS = os.path.join(build.REPO, "src/main/scripts")
COMMANDS = ["cp", "mv", "rm", "ln", "cat", "dd", "install", "mkdir", "rmdir", "touch", "mktemp", "basename", "dirname", "tee", "grep", "sed", "cut", "tr", "head", "tail", "cmp", "sync", "chmod", "find", "xargs", "wc", "sort", "env", "truncate", "mkfifo"]
NOBODY = 65534


def stub():
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    p = os.path.join(build.BUILD, "so", "stub-" + h)
    if not os.path.exists(p):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = "%s.%d" % (p, os.getpid())
        build._run(["gcc", "-O1", "-w", "-o", t, SRC])
        os.replace(t, p)
    return p


class Scratch:
    """a scratch directory owned by an unprivileged user: cwd `w`, commands `bin`, control `ctl`"""

    def __init__(self):
        self.top = tempfile.mkdtemp(prefix="verif-proc-")
        os.chmod(self.top, 0o755)
        os.mkdir(self.path("bin"))
        exe = self.path("bin/.stub")
        shutil.copy(stub(), exe)
        os.chmod(exe, 0o755)
        for c in COMMANDS:
            os.symlink(".stub", self.path("bin/" + c))

    def path(self, p):
        return os.path.join(self.top, p)

    def command(self, name, where="bin"):
        p = self.path(where + "/" + name)
        if not os.path.lexists(p):
            os.symlink(self.path("bin/.stub"), p)

    def fresh(self, files, ctl, dirs=()):
        for d in ("w", "ctl"):
            shutil.rmtree(self.path(d), ignore_errors=True)
            os.mkdir(self.path(d))
            os.chown(self.path(d), NOBODY, NOBODY)
        for d in dirs:
            os.makedirs(self.path("w/" + d), exist_ok=True)
        for f, b in files.items():
            p = self.path("w/" + f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(b)
        for f, b in ctl.items():
            open(self.path("ctl/" + f), "wb").write(b)
        for a, ds, fs in os.walk(self.top):
            if a.startswith(self.path("w")) or a.startswith(self.path("ctl")):
                for x in ds + fs:
                    os.lchown(os.path.join(a, x), NOBODY, NOBODY)

    def run(self, argv, timeout=60):
        """(status, stdout, stderr); status is negative for a signal, None if it did not end"""
        env = {"PATH": self.path("bin") + ":/usr/bin:/bin", "SIMDIR": self.path("ctl"), "SIMROOT": os.path.realpath(self.top) + "/", "LC_ALL": "C", "HOME": self.path("w"), "TMPDIR": self.path("w")}
        p = subprocess.Popen(argv, cwd=self.path("w"), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True, user=NOBODY, group=NOBODY, extra_groups=[])
        try:
            o, e = p.communicate(timeout=timeout)
            st = p.returncode
        except subprocess.TimeoutExpired:
            st, o, e = None, b"", b""
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        if st is None:
            p.communicate()
        return st, o, e

    def log(self):
        try:
            return open(self.path("ctl/log")).read().splitlines()
        except FileNotFoundError:
            return []

    def escaped(self):
        return os.path.exists(self.path("ctl/escape"))

    def tree(self):
        t = {}
        for a, ds, fs in os.walk(self.path("w")):
            for f in fs:
                p = os.path.join(a, f)
                t[os.path.relpath(p, self.path("w"))] = open(p, "rb").read() if not os.path.islink(p) else b"-> " + os.readlink(p).encode()
        return t

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)
