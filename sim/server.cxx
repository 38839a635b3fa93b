// Run server: reads run requests, executes each in a forked child, returns the outcome.
#include "shm.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <poll.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <exception>
#include <new>
#include <stdexcept>

Shm *shm;
std::vector<Fault> g_faults;
std::map<std::string, std::string> g_files;
std::map<std::string, u64> g_counters;
void sched_init(); void run_main(void *(*)(void *), void *); u64 worker_steps(); u64 mem_allocs(); u64 mem_wallocs();

u64 opt_u(const char *k, u64 def) { auto i = S.opt.find(k); return i == S.opt.end() ? def : strtoull(i->second.c_str(), nullptr, 0); }
double opt_d(const char *k, double def) { auto i = S.opt.find(k); return i == S.opt.end() ? def : strtod(i->second.c_str(), nullptr); }
void count(const char *name, u64 n) { SimScope sc; g_counters[name] += n; }
void ev(int kind, u64 a, u64 b) {
  if (shm->ev_n >= Shm::EVN) return;
  Ev &e = shm->evs[shm->ev_n++]; e.kind = (u32)kind; e.fiber = S.cur ? S.cur->id : -1; e.a = a; e.b = b; e.step = now_steps(); e.wsteps = worker_steps();
}

void finish(const char *kind, long a, const char *msg) {
  S.simdepth = 1;
  shm->steps = now_steps();
  S.running = false; S.quota = S.countdown = INT64_MAX;
  snprintf(shm->kind, sizeof shm->kind, "%s", kind); shm->a = a; snprintf(shm->msg, sizeof shm->msg, "%s", msg);
  shm->hash = S.sched_hash;
  std::string t;
  auto add = [&](const char *k, u64 v) { t += k; t += '='; t += std::to_string(v); t += '\n'; };
  add("switches", S.switches); add("preemptions", S.preempts); add("threads", S.creates); add("max_runnable", S.maxrun);
  add("regions", S.region); add("live", (u64)S.live); add("allocs", mem_allocs()); add("wallocs", mem_wallocs()); add("wsteps", g_worker_steps); add("sim_ns", shm->steps + S.slept);
  for (auto &c : g_counters) add(c.first.c_str(), c.second);
  for (size_t i = 0; i < g_faults.size(); ++i) add(("fired." + std::to_string(i)).c_str(), g_faults[i].fired);
  if (t.size() > Shm::TXT) t.resize(Shm::TXT);
  memcpy(shm->txt, t.data(), t.size()); shm->txt_n = t.size();
  shm->done = 1;
  syscall(SYS_exit_group, 0);
  __builtin_trap();
}

// used by harness plugins to record history
extern "C" void sim_record(const void *p, size_t n) { SimScope sc; if (shm->rec_n + n <= Shm::REC) { memcpy(shm->rec + shm->rec_n, p, n); shm->rec_n += n; } else finish("hang", 0, "history too long"); }
extern "C" unsigned long sim_fiber() { return S.cur ? (unsigned long)S.cur->id : 0; }
// the code of an injected failure number n of this kind, or 0
extern "C" long sim_fault(const char *kind, unsigned long n) {
  SimScope sc;
  for (Fault &f : g_faults) if (f.kind == kind && (n == f.a || (f.b && n > f.a))) { f.fired++; count(("fault." + f.kind).c_str()); ev(EV_FAULT, 6, n); return (long)f.c; }
  return 0;
}
extern "C" unsigned long sim_steps() { return now_steps(); }
extern "C" void sim_yield() { SimScope sc; sched_point(50); }
extern "C" void sim_fault_fired(const char *n) { count(n); }

// leaving the program
extern "C" {
__attribute__((noreturn)) void exit(int c) noexcept { if (!S.running) { syscall(SYS_exit_group, (long)c); __builtin_trap(); } io_finish(); finish("exit", c & 255); }
__attribute__((noreturn)) void _exit(int c) { if (!S.running) { syscall(SYS_exit_group, (long)c); __builtin_trap(); } finish("exit", c & 255); }
__attribute__((noreturn)) void _Exit(int c) noexcept { if (!S.running) { syscall(SYS_exit_group, (long)c); __builtin_trap(); } finish("exit", c & 255); }
__attribute__((noreturn)) void quick_exit(int c) noexcept { finish("exit", c & 255); }
__attribute__((noreturn)) void abort(void) noexcept { if (!S.running) { syscall(SYS_kill, syscall(SYS_getpid), SIGABRT); for (;;) __builtin_trap(); } finish("abort", 6, "abort"); }
}
static void on_terminate() {
  std::string m = "terminate called";
  try { std::rethrow_exception(std::current_exception()); } catch (std::exception &e) { SimScope sc; m += ": "; m += e.what(); } catch (...) {}
  finish("abort", 6, m.c_str());
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  char b[200]; const char *k = "signal";
  void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  Dl_info di; const char *sym = "?"; if (dladdr(pc, &di) && di.dli_sname) sym = di.dli_sname;
  if (sig == SIGVTALRM) { k = "hang"; snprintf(b, sizeof b, "cpu time limit in %s", sym); }
  else {
    bool guard = S.cur && si->si_addr >= (void *)(S.cur->stack - 4096) && si->si_addr < (void *)S.cur->stack;
    snprintf(b, sizeof b, "signal %d%s in %s", sig, guard ? " (stack overflow)" : "", sym);
  }
  finish(k, sig, b);
}

// LAPACK drivers, with injected failures
static u64 lapack_calls = 0;
static int lapack_fault() {
  SimScope sc; ++lapack_calls; count("lapack.calls");
  for (Fault &f : g_faults) if (f.kind == "lapack" && (lapack_calls == f.a || (f.b && lapack_calls > f.a))) { f.fired++; count("fault.lapack"); return (int)f.c; }
  return 0;
}
// codes from 100 on leave the routine by an exception (such as a workspace that cannot be allocated)
static void lapack_throw(int e) {
  switch (e) {
  case 100: throw std::bad_alloc();
  case 101: throw std::exception();
  case 102: throw std::logic_error("injected logic error");
  case 103: throw std::runtime_error("injected runtime error");
  }
}
extern "C" {
typedef const void *cv;
void dsyevd_(const char *job, const char *uplo, const int *n, double *A, const int *lda, double *w, double *work, const int *lwork, int *iwork, const int *liwork, int *info) {
  static void (*r)(const char *, const char *, const int *, double *, const int *, double *, double *, const int *, int *, const int *, int *);
  if (!r) { SimScope sc; r = (decltype(r))dlsym(RTLD_NEXT, "dsyevd_"); }
  if (S.running && *lwork != -1) { int e = lapack_fault(); lapack_throw(e);
    if (e > 0) r(job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info);
    if (e) { *info = e; return; } }
  r(job, uplo, n, A, lda, w, work, lwork, iwork, liwork, info);
}
void dsyevr_(const char *job, const char *range, const char *uplo, const int *n, double *A, const int *lda, const double *vl, const double *vu, const int *il, const int *iu, const double *abstol, int *m, double *w, double *Z, const int *ldz, int *isupp, double *work, const int *lwork, int *iwork, const int *liwork, int *info) {
  static void (*r)(const char *, const char *, const char *, const int *, double *, const int *, const double *, const double *, const int *, const int *, const double *, int *, double *, double *, const int *, int *, double *, const int *, int *, const int *, int *);
  if (!r) { SimScope sc; r = (decltype(r))dlsym(RTLD_NEXT, "dsyevr_"); }
  if (S.running && *lwork != -1) { int e = lapack_fault(); lapack_throw(e);
    if (e > 0) { r(job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info); *m = e % 2 ? *n : 0; }
    if (e) { *info = e; return; } }
  r(job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, isupp, work, lwork, iwork, liwork, info);
}
void dsyevx_(const char *job, const char *range, const char *uplo, const int *n, double *A, const int *lda, const double *vl, const double *vu, const int *il, const int *iu, const double *abstol, int *m, double *w, double *Z, const int *ldz, double *work, const int *lwork, int *iwork, int *ifail, int *info) {
  static void (*r)(const char *, const char *, const char *, const int *, double *, const int *, const double *, const double *, const int *, const int *, const double *, int *, double *, double *, const int *, double *, const int *, int *, int *, int *);
  if (!r) { SimScope sc; r = (decltype(r))dlsym(RTLD_NEXT, "dsyevx_"); }
  if (S.running && *lwork != -1) { int e = lapack_fault(); lapack_throw(e);
    if (e > 0) { r(job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info); *m = e % 2 ? *n : 0; }
    if (e) { *info = e; return; } }
  r(job, range, uplo, n, A, lda, vl, vu, il, iu, abstol, m, w, Z, ldz, work, lwork, iwork, ifail, info);
}
}

// ------------------------------------------------------------------ plugins
typedef int (*main_fn)(int, char **);
struct Plugin { std::string path; main_fn fn; u64 base; };
static std::map<std::string, Plugin> plugins;

static int phdr(struct dl_phdr_info *i, size_t, void *p) {
  Plugin *pl = (Plugin *)p;
  if (!i->dlpi_name || pl->path != i->dlpi_name) return 0;
  pl->base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS)
    tls_add_module(i->dlpi_tls_modid, (void *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz, i->dlpi_phdr[k].p_memsz, i->dlpi_phdr[k].p_align);
  return 1;
}
static Plugin *load(const std::string &path) {
  auto i = plugins.find(path);
  if (i != plugins.end()) return &i->second;
  void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "especia-sim: %s\n", dlerror()); return nullptr; }
  Plugin p; p.path = path; p.base = 0;
  p.fn = (main_fn)dlsym(h, "sim_app_main");
  if (!p.fn) { fprintf(stderr, "especia-sim: %s: no sim_app_main\n", path.c_str()); return nullptr; }
  dl_iterate_phdr(phdr, &p);
  plugins[path] = p;
  return &plugins[path];
}

struct MainArg { main_fn fn; int argc; char **argv; };
static void *app_main(void *p) {
  MainArg *m = (MainArg *)p;
  int c = m->fn(m->argc, m->argv);
  run_tls_dtors(S.cur);
  io_finish();
  finish("exit", c & 255);
}

static bool rd(int fd, void *b, size_t n) { char *p = (char *)b; while (n) { ssize_t k = ::read(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; n -= (size_t)k; } return true; }
static bool wr(int fd, const void *b, size_t n) { const char *p = (const char *)b; while (n) { ssize_t k = ::write(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; n -= (size_t)k; } return true; }
static void put(std::string &o, const char *k, const void *v, size_t n) { u8 kl = (u8)strlen(k); o.push_back((char)kl); o.append(k); u32 l = (u32)n; o.append((char *)&l, 4); o.append((const char *)v, n); }

static void child(Plugin *pl, const std::string &argv, const std::string &sched) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  stack_t st; st.ss_sp = mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); st.ss_size = 1 << 18; st.ss_flags = 0; sigaltstack(&st, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = (time_t)opt_u("cpu", 20); setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  // schedule list
  size_t p = 0; while (p < sched.size()) { char *e; u64 a = strtoull(sched.c_str() + p, &e, 10); if (*e != ':') break; u64 b = strtoull(e + 1, &e, 10); S.list.push_back({a, (int)b}); p = (size_t)(e - sched.c_str()); while (p < sched.size() && sched[p] == ' ') ++p; }
  sched_init(); mem_init(); race_init(); io_init();
  std::vector<char *> av; std::string a = argv; size_t q = 0;
  while (q < a.size()) { av.push_back(&a[q]); q += strlen(&a[q]) + 1; }
  int n = (int)av.size(); av.push_back(nullptr);
  MainArg m{pl->fn, n, av.data()};
  run_main(app_main, &m);
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  for (int i = 1; i < argc; ++i) if (!load(argv[i])) return 3;
  shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    u32 len; if (!rd(0, &len, 4)) return 0;
    std::string req(len, 0); if (!rd(0, &req[0], len)) return 0;
    S.opt.clear(); g_faults.clear(); g_files.clear(); g_counters.clear();
    std::string lib, av, sched; size_t p = 0;
    while (p < req.size()) {
      u8 kl = (u8)req[p++]; std::string k = req.substr(p, kl); p += kl; u32 l; memcpy(&l, &req[p], 4); p += 4; std::string v = req.substr(p, l); p += l;
      if (k == "lib") lib = v; else if (k == "argv") av = v; else if (k == "sched") sched = v;
      else if (k == "stdin") g_files["<stdin>"] = v;
      else if (k.compare(0, 5, "file:") == 0) g_files[k.substr(5)] = v;
      else if (k.compare(0, 4, "opt:") == 0) S.opt[k.substr(4)] = v;
      else if (k == "fault") { // kind|name|a|b|c
        Fault f; size_t i = 0, j = v.find('|'); f.kind = v.substr(0, j); i = j + 1; j = v.find('|', i); f.name = v.substr(i, j - i); i = j + 1; char *e;
        f.a = strtoull(v.c_str() + i, &e, 10); f.b = strtoull(e + 1, &e, 10); f.c = strtoll(e + 1, &e, 10); g_faults.push_back(f); }
    }
    Plugin *pl = load(lib);
    std::string o;
    if (!pl) { put(o, "kind", "noplugin", 8); }
    else {
      shm->done = 0; shm->out_n = shm->err_n = shm->ev_n = shm->pre_n = shm->race_n = shm->rec_n = shm->txt_n = shm->pre_lost = shm->steps = shm->hash = 0; shm->msg[0] = 0; shm->kind[0] = 0; shm->a = 0;
      pid_t pid = fork();
      if (pid == 0) { child(pl, av, sched); __builtin_trap(); }
      int st = 0; if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (pid < 0) { put(o, "kind", "simerror", 8); put(o, "msg", "fork", 4); }
      else {
        if (!shm->done) { snprintf(shm->kind, sizeof shm->kind, "simerror"); snprintf(shm->msg, sizeof shm->msg, "child ended with wait status %d", st); }
        put(o, "kind", shm->kind, strlen(shm->kind)); put(o, "msg", shm->msg, strlen(shm->msg));
        i64 nums[8] = {shm->a, (i64)shm->steps, (i64)shm->hash, (i64)shm->pre_lost, (i64)pl->base, 0, 0, 0}; put(o, "nums", nums, sizeof nums);
        put(o, "out", shm->out, shm->out_n); put(o, "err", shm->err, shm->err_n); put(o, "txt", shm->txt, shm->txt_n);
        if (opt_u("want_ev", 0)) put(o, "ev", shm->evs, shm->ev_n * sizeof(Ev));
        if (opt_u("want_pre", 0)) put(o, "pre", shm->pres, shm->pre_n * sizeof(Pre));
        put(o, "race", shm->races, shm->race_n * sizeof(RaceRep));
        if (shm->rec_n) put(o, "rec", shm->rec, shm->rec_n);
      }
    }
    u32 l = (u32)o.size(); if (!wr(1, &l, 4) || !wr(1, o.data(), o.size())) return 0;
  }
}
