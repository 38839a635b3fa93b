// Fibers, scheduler, simulated threads and synchronisation objects.
#include "shm.h"
#include <pthread.h>
#include <errno.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <time.h>
#include <sched.h>
#include <semaphore.h>
#include <unistd.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <algorithm>
#include <cmath>

Sim S;
u64 g_worker_steps = 0; // steps executed by fibers other than main, up to the last switch
static u64 last_switch_total = 0;
static u64 next_preempt = UINT64_MAX;

u64 now_steps() { return S.total + (u64)(S.quota - S.countdown); }
u64 worker_steps() {
  u64 n = now_steps();
  return g_worker_steps + ((S.cur && S.cur->id != 0) ? n - last_switch_total : 0);
}
u64 sim_now_ns() { return S.clock_base + now_steps() + S.slept; }

static void sync_total() { S.total = now_steps(); S.quota = S.countdown = 0; }

static u64 geom(double p) {
  if (p <= 0) return UINT64_MAX / 4;
  double u = S.srng.uniform();
  double g = std::floor(std::log1p(-u) / std::log1p(-p)) + 1;
  return g < 1 ? 1 : g > 1e15 ? (u64)1e15 : (u64)g;
}

enum { POL_RTC = 0, POL_RAND = 1, POL_RR = 2, POL_PCT = 3, POL_STALL = 4, POL_LIST = 5 };
static int order = 0; // forced choice for rtc: 0 fifo, 1 lifo, 2 random
static double syncp = 0.5;

static void draw_preempt() {
  next_preempt = UINT64_MAX;
  if (S.policy == POL_LIST) {
    while (S.li < S.list.size() && S.list[S.li].first <= S.total) ++S.li;
    if (S.li < S.list.size()) next_preempt = S.list[S.li].first;
    return;
  }
  if (S.runnable < 2) return;
  switch (S.policy) {
  case POL_RAND: case POL_STALL: next_preempt = S.total + geom(S.p); break;
  case POL_RR: next_preempt = S.total + S.quantum; break;
  case POL_PCT:
    while (S.cp < S.change_points.size() && S.change_points[S.cp] <= S.total) ++S.cp;
    if (S.cp < S.change_points.size()) next_preempt = S.change_points[S.cp];
    break;
  default: break;
  }
}

void set_next() {
  // called with total synchronised
  draw_preempt();
  u64 t = S.fuel;
  if (S.crash_step && S.crash_step < t) t = S.crash_step;
  if (next_preempt < t) t = next_preempt;
  u64 d = t > S.total ? t - S.total : 1;
  if (d > (u64)1 << 60) d = (u64)1 << 60;
  S.quota = S.countdown = (i64)d - 1;
}

extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
  .cfi_startproc
  .cfi_undefined rip
  movq %r12, %rdi
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

extern "C" void *__cxa_get_globals();
static void **eh() { return (void **)__cxa_get_globals(); }

static void do_switch(Fiber *to) {
  Fiber *from = S.cur;
  if (to == from) return;
  u64 n = now_steps();
  if (from->id != 0) g_worker_steps += n - last_switch_total;
  from->steps += n - last_switch_total;
  last_switch_total = n;
  S.switches++;
  S.sched_hash = (S.sched_hash ^ (n * 31 + (u64)to->id)) * 1099511628211ull;
  from->simdepth = S.simdepth;
  void **g = eh();
  from->eh[0] = g[0]; from->eh[1] = g[1];
  g[0] = to->eh[0]; g[1] = to->eh[1];
  S.cur = to; S.simdepth = to->simdepth;
  sim_switch(&from->sp, to->sp);
}

static void log_pre(u64 step, int tid) {
  if (shm->pre_n < Shm::PREN) { shm->pres[shm->pre_n].step = step; shm->pres[shm->pre_n].tid = (u64)tid; shm->pre_n++; }
  else shm->pre_lost++;
}

static Fiber *lowest_runnable(Fiber *except) {
  Fiber *b = nullptr;
  for (Fiber *f : S.fibers) if (f->state == F_RUNNABLE && f != except) { if (!b || f->id < b->id) b = f; }
  return b;
}

static Fiber *choose(bool forced) {
  // candidates: all runnable fibers except the current one
  Fiber *def = lowest_runnable(S.cur);
  if (!def) return nullptr;
  static std::vector<Fiber *> c; c.clear();
  for (Fiber *f : S.fibers) if (f->state == F_RUNNABLE && f != S.cur) c.push_back(f);
  std::sort(c.begin(), c.end(), [](Fiber *a, Fiber *b) { return a->id < b->id; });
  switch (S.policy) {
  case POL_RTC:
    if (order == 1) return c.back();
    if (order == 2) return c[S.srng.below(c.size())];
    return c.front();
  case POL_RAND: return c[S.srng.below(c.size())];
  case POL_RR: {
    for (Fiber *f : c) if (f->id > S.cur->id) return f;
    return c.front();
  }
  case POL_PCT: {
    Fiber *b = c.front();
    for (Fiber *f : c) if (f->prio > b->prio) b = f;
    if (!forced && S.cur->state == F_RUNNABLE && S.cur->prio >= b->prio) return nullptr;
    return b;
  }
  case POL_STALL: {
    static std::vector<Fiber *> d; d.clear();
    for (Fiber *f : c) if (!f->stalled) d.push_back(f);
    if (d.empty()) { if (!forced) return nullptr; return c[S.srng.below(c.size())]; }
    return d[S.srng.below(d.size())];
  }
  case POL_LIST: return def;
  }
  return def;
}

static Fiber *by_id(u64 id) {
  for (Fiber *f : S.fibers) if ((u64)f->id == id && f->state == F_RUNNABLE) return f;
  return nullptr;
}

static void check_limits() {
  if (S.crash_step && S.total >= S.crash_step) finish("crash", 0);
  if (S.total >= S.fuel) finish("hang", 0, "step limit exhausted");
}

static void switch_logged(Fiber *f) {
  log_pre(S.total, f->id);
  S.preempts++;
  do_switch(f);
}

extern "C" void sim_tick_slow() {
  if (!S.running) { S.quota = S.countdown = INT64_MAX; return; }
  SimScope sc;
  sync_total();
  check_limits();
  Fiber *to = nullptr;
  if (S.policy == POL_LIST) {
    if (S.li < S.list.size() && S.list[S.li].first == S.total) { to = by_id((u64)S.list[S.li].second); ++S.li; }
  } else if (S.total >= next_preempt && S.runnable >= 2) {
    if (S.policy == POL_PCT) { S.cur->prio = --S.lowprio; ++S.cp; }
    to = choose(false);
  }
  set_next();
  if (to && to != S.cur) switch_logged(to);
}

static void advance_one() { S.total = now_steps() + 1; S.quota = S.countdown = 0; }

void sched_point(int) {
  if (!S.running) return;
  SimScope sc;
  advance_one();
  check_limits();
  Fiber *to = nullptr;
  if (S.policy == POL_LIST) {
    if (S.li < S.list.size() && S.list[S.li].first == S.total) { to = by_id((u64)S.list[S.li].second); ++S.li; }
  } else if (S.runnable >= 2) {
    switch (S.policy) {
    case POL_RAND: case POL_STALL: if (S.srng.uniform() < syncp) to = choose(false); break;
    case POL_PCT: to = choose(false); break;
    default: break;
    }
  }
  set_next();
  if (to && to != S.cur) switch_logged(to);
}

// the current fiber cannot continue
static void forced_switch() {
  advance_one();
  check_limits();
  Fiber *to = nullptr;
  if (S.runnable == 0) {
    Fiber *b = nullptr;
    for (Fiber *f : S.fibers)
      if (f->state == F_BLOCKED && f->timed && (!b || f->deadline < b->deadline || (f->deadline == b->deadline && f->id < b->id))) b = f;
    if (!b) finish("deadlock", 0, "no runnable thread");
    u64 n = sim_now_ns();
    if (b->deadline > n) S.slept += b->deadline - n;
    b->timed_out = true; b->timed = false; b->wait_obj = nullptr;
    b->state = F_RUNNABLE; S.runnable++;
    count("time.jumps");
  }
  Fiber *def = lowest_runnable(S.cur->state == F_RUNNABLE ? nullptr : S.cur);
  if (S.policy == POL_LIST) {
    if (S.li < S.list.size() && S.list[S.li].first == S.total) { to = by_id((u64)S.list[S.li].second); ++S.li; }
  } else {
    to = choose(true);
  }
  if (!to) to = def;
  if (to != def) log_pre(S.total, to->id);
  S.forced++;
  set_next();
  do_switch(to);
}

void block(const void *obj) {
  SimScope sc;
  Fiber *f = S.cur;
  f->state = F_BLOCKED; f->wait_obj = obj; f->timed = false; f->timed_out = false; S.runnable--;
  forced_switch();
}
bool block_until(const void *obj, u64 deadline) {
  SimScope sc;
  Fiber *f = S.cur;
  f->state = F_BLOCKED; f->wait_obj = obj; f->timed = true; f->deadline = deadline; f->timed_out = false; S.runnable--;
  forced_switch();
  return f->timed_out;
}
void make_runnable(Fiber *f) {
  if (f->state == F_BLOCKED) {
    f->state = F_RUNNABLE; f->wait_obj = nullptr; f->timed = false; S.runnable++;
    if ((u64)S.runnable > S.maxrun) S.maxrun = (u64)S.runnable;
    sync_total(); set_next();
  }
}
int wake(const void *obj, int n) {
  int k = 0;
  while (k < n) {
    static std::vector<Fiber *> w; w.clear();
    for (Fiber *f : S.fibers) if (f->state == F_BLOCKED && f->wait_obj == obj) w.push_back(f);
    if (w.empty()) break;
    std::sort(w.begin(), w.end(), [](Fiber *a, Fiber *b) { return a->id < b->id; });
    make_runnable(w.front());
    ++k;
  }
  return k;
}

static std::vector<u8 *> stack_pool;
static const size_t STACK = 512 << 10, MAIN_STACK = 16 << 20;

static u8 *get_stack(size_t n) {
  if (n == STACK && !stack_pool.empty()) { u8 *s = stack_pool.back(); stack_pool.pop_back(); return s; }
  u8 *s = (u8 *)mmap(nullptr, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (s == MAP_FAILED) finish("simerror", 0, "stack");
  mprotect(s, 4096, PROT_NONE);
  return s + 4096;
}

void junk_fill(void *p, size_t n);

Fiber *new_fiber(void *(*start)(void *), void *arg) {
  SimScope sc;
  Fiber *f = new Fiber();
  f->id = (int)S.next_id++;
  f->start = start; f->arg = arg; f->ret = nullptr;
  f->stack_size = f->id == 0 ? MAIN_STACK : STACK;
  f->stack = get_stack(f->stack_size);
  f->state = F_RUNNABLE; f->joiner = -1; f->simdepth = 0;
  f->created_step = now_steps();
  f->prio = 1000000 + S.srng.below(1000000);
  f->stalled = f->id != 0 && S.policy == POL_STALL && S.srng.uniform() < 0.3;
  f->slot = -1;
  if (S.paint) junk_fill(f->stack + f->stack_size - 16384, 16384);
  u64 *sp = (u64 *)(f->stack + f->stack_size);
  sp -= 5; // alignment: a multiple of 16 at the call in sim_tramp
  *--sp = 0;
  *--sp = (u64)(void *)sim_tramp;  // return address
  // popped: r15 r14 r13 r12 rbx rbp
  *--sp = 0;            // rbp
  *--sp = 0;            // rbx
  *--sp = (u64)f;       // r12
  *--sp = 0; *--sp = 0; *--sp = 0; // r13 r14 r15
  *--sp = 0;
  ((u32 *)sp)[0] = 0x1f80; ((u32 *)sp)[1] = 0x37f;
  f->sp = sp;
  S.fibers.push_back(f);
  S.runnable++; S.live++;
  if ((u64)S.runnable > S.maxrun) S.maxrun = (u64)S.runnable;
  race_clear(f->stack, 0);
  return f;
}

extern "C" void sim_fiber_main(Fiber *f) {
  f->ret = f->start(f->arg);
  fiber_exit();
}

void fiber_exit() {
  Fiber *f = S.cur;
  run_tls_dtors(f);
  S.simdepth++;
  ev(EV_EXIT, (u64)f->id, 0);
  f->state = F_FINISHED; S.runnable--; S.live--;
  hb_release((const void *)f);
  wake((const void *)f, 1 << 30);
  forced_switch();
  __builtin_trap();
}

void reap(Fiber *f) {
  SimScope sc;
  for (size_t i = 0; i < S.fibers.size(); ++i) if (S.fibers[i] == f) { S.fibers.erase(S.fibers.begin() + (long)i); break; }
  if (f->stack_size == STACK) stack_pool.push_back(f->stack);
  race_clear(f->stack, f->stack_size);
  slot_release(f);
  tls_free(f);
  delete f;
}

void sched_init() {
  S.policy = (int)opt_u("policy", 0);
  S.p = opt_d("p", 0.001); S.quantum = opt_u("quantum", 1000);
  order = (int)opt_u("order", 0); syncp = opt_d("syncp", 0.5);
  S.fuel = opt_u("fuel", 3000000000ull);
  S.crash_step = opt_u("crash", 0);
  S.srng = Rng(opt_u("sseed", 1)); S.iorng = Rng(opt_u("ioseed", 2)); S.mrng = Rng(opt_u("mseed", 3)); S.erng = Rng(opt_u("eseed", 4));
  S.race = opt_u("race", 0); S.ncpu = (int)opt_u("ncpu", 4); S.team = (int)opt_u("team", 2); S.team_vary = opt_u("teamvary", 0);
  S.clock_base = opt_u("clock", 1700000000ull) * 1000000000ull;
  S.paint = opt_u("paint", 1);
  S.lowprio = 1000000;
  if (S.policy == POL_PCT) {
    u64 d = opt_u("d", 3), len = opt_u("len", 1000000);
    for (u64 i = 0; i < d; ++i) S.change_points.push_back(1 + S.srng.below(len));
    std::sort(S.change_points.begin(), S.change_points.end());
  }
}

static void *main_ret(void *) { return nullptr; }

void run_main(void *(*start)(void *), void *arg) {
  (void)main_ret;
  Fiber root; root.id = -1; root.state = F_FINISHED;
  S.cur = &root; root.simdepth = 1;
  Fiber *m = new_fiber(start, arg);
  hb_fork(nullptr, m);
  S.total = 0; S.quota = S.countdown = 0;
  g_worker_steps = 0; last_switch_total = 0; S.switches = 0;
  S.running = true;
  set_next();
  do_switch(m);
  __builtin_trap();
}

// ------------------------------------------------------------------ pthreads
typedef unsigned long ul;
static Fiber *find_fiber(ul t) {
  for (Fiber *f : S.fibers) if ((ul)f->id + 1 == t) return f;
  return nullptr;
}

extern "C" {

int pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*start)(void *), void *arg) noexcept {
  if (!S.running) return EAGAIN;
  SimScope sc;
  S.creates++;
  for (Fault &f : g_faults) if (f.kind == "thread" && (S.creates == f.a || (f.b && S.creates > f.a))) {
    f.fired++; count("fault.thread_start"); ev(EV_FAULT, 1, S.creates); return EAGAIN;
  }
  u64 maxlive = opt_u("maxthreads", 0);
  if (maxlive && (u64)S.live > maxlive) { count("fault.thread_limit"); return EAGAIN; }
  sync_total();
  Fiber *f = new_fiber(start, arg);
  int ds = 0; if (attr) pthread_attr_getdetachstate(attr, &ds);
  f->detached = ds == PTHREAD_CREATE_DETACHED;
  *t = (pthread_t)(f->id + 1);
  hb_fork(S.cur, f);
  ev(EV_CREATE, (u64)f->id, 0);
  set_next();
  sched_point(1);
  return 0;
}
int pthread_join(pthread_t t, void **ret) {
  SimScope sc;
  Fiber *f = find_fiber((ul)t);
  if (!f) return ESRCH;
  if (f == S.cur) return EDEADLK;
  sched_point(2);
  while (f->state != F_FINISHED) block((const void *)f);
  hb_join(S.cur, f);
  ev(EV_JOIN, (u64)f->id, 0);
  if (ret) *ret = f->ret;
  reap(f);
  return 0;
}
int pthread_detach(pthread_t t) noexcept {
  SimScope sc;
  Fiber *f = find_fiber((ul)t);
  if (f) f->detached = true;
  return 0;
}
pthread_t pthread_self(void) noexcept { return S.running && S.cur ? (pthread_t)(S.cur->id + 1) : (pthread_t)1; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int sched_yield(void) noexcept { if (S.running) { SimScope sc; sched_point(3);
    if (S.policy == POL_RTC || S.policy == POL_RR || S.policy == POL_LIST) { // a spinning thread must let others run
      Fiber *f = nullptr; for (Fiber *x : S.fibers) if (x->state == F_RUNNABLE && x->id > S.cur->id && (!f || x->id < f->id)) f = x;
      if (!f) f = lowest_runnable(S.cur);
      if (f) { advance_one(); set_next(); do_switch(f); } } } return 0; }

// mutexes
struct Mx { int owner = -1; int count = 0; };
}
static std::unordered_map<const void *, Mx> mxs;
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int mx_lock(pthread_mutex_t *m, bool try_only, u64 deadline) {
  sched_point(4);
  for (;;) {
    Mx &x = mxs[m];
    if (x.owner < 0) { x.owner = S.cur->id; x.count = 1; hb_acquire(m); return 0; }
    if (x.owner == S.cur->id && recursive(m)) { x.count++; return 0; }
    if (try_only) return EBUSY;
    count("mutex.contended");
    if (deadline) { if (block_until(m, deadline)) return ETIMEDOUT; } else block(m);
  }
}
static int mx_unlock(pthread_mutex_t *m) {
  Mx &x = mxs[m];
  if (x.owner != S.cur->id) return EPERM;
  if (--x.count > 0) return 0;
  x.owner = -1; hb_release(m); mxs.erase(m);
  wake(m, 1);
  sched_point(5);
  return 0;
}
static u64 abs_ns(const struct timespec *ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) noexcept {
  memset(m, 0, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) noexcept { if (S.running) { SimScope sc; mxs.erase(m); } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { if (!in_app()) return 0; SimScope sc; return mx_lock(m, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { if (!in_app()) return 0; SimScope sc; return mx_lock(m, true, 0); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) noexcept { if (!in_app()) return 0; SimScope sc; return mx_lock(m, false, abs_ns(ts)); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *ts) noexcept { if (!in_app()) return 0; SimScope sc; return mx_lock(m, false, abs_ns(ts)); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { if (!in_app()) return 0; SimScope sc; return mx_unlock(m); }

int pthread_spin_init(pthread_spinlock_t *l, int) noexcept { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t *) noexcept { return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; sched_point(4); while (*l) block((const void *)l); *l = 1; hb_acquire((const void *)l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; sched_point(4); if (*l) return EBUSY; *l = 1; hb_acquire((const void *)l); return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; *l = 0; hb_release((const void *)l); wake((const void *)l, 1); sched_point(5); return 0; }

// condition variables
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, u64 deadline) {
  // release, wait, reacquire; a spurious wakeup is legal and seeded
  bool to = false;
  Mx &x = mxs[m];
  int cnt = x.count;
  x.owner = -1; x.count = 0; hb_release(m); mxs.erase(m); wake(m, 1);
  if (S.policy != POL_LIST && S.policy != POL_RTC && S.srng.uniform() < 0.02) { count("cond.spurious"); sched_point(6); }
  else if (deadline) to = block_until(c, deadline); else block(c);
  hb_acquire(c);
  mx_lock(m, false, 0);
  mxs[m].count = cnt ? cnt : 1;
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!S.running) return 0; SimScope sc; return cond_wait(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!S.running) return 0; SimScope sc; return cond_wait(c, m, abs_ns(ts)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) { if (!S.running) return 0; SimScope sc; return cond_wait(c, m, abs_ns(ts)); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!S.running) return 0; SimScope sc; hb_release(c); wake(c, 1); sched_point(7); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!S.running) return 0; SimScope sc; hb_release(c); wake(c, 1 << 30); sched_point(7); return 0; }

// reader-writer locks: treated as exclusive for writers, counted for readers
struct Rw { int writer = -1; int readers = 0; };
}
static std::unordered_map<const void *, Rw> rws;
extern "C" {
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) noexcept { memset(l, 0, sizeof *l); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; sched_point(4); while (rws[l].writer >= 0) block(l); rws[l].readers++; hb_acquire(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; sched_point(4); while (rws[l].writer >= 0 || rws[l].readers) block(l); rws[l].writer = S.cur->id; hb_acquire(l); hb_acquire((const char *)l + 1); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept { if (!in_app()) return 0; SimScope sc; Rw &r = rws[l]; if (r.writer == S.cur->id) { r.writer = -1; hb_release(l); } else { r.readers--; hb_release((const char *)l + 1); } wake(l, 1 << 30); sched_point(5); return 0; }

// semaphores
static std::unordered_map<const void *, int> *sems() { static std::unordered_map<const void *, int> m; return &m; }
int sem_init(sem_t *s, int, unsigned v) noexcept { SimScope sc; (*sems())[s] = (int)v; return 0; }
int sem_destroy(sem_t *s) noexcept { SimScope sc; sems()->erase(s); return 0; }
int sem_wait(sem_t *s) { SimScope sc; sched_point(4); while ((*sems())[s] <= 0) block(s); (*sems())[s]--; hb_acquire(s); return 0; }
int sem_trywait(sem_t *s) noexcept { SimScope sc; sched_point(4); if ((*sems())[s] <= 0) { errno = EAGAIN; return -1; } (*sems())[s]--; hb_acquire(s); return 0; }
int sem_post(sem_t *s) noexcept { SimScope sc; hb_release(s); (*sems())[s]++; wake(s, 1); sched_point(5); return 0; }

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!S.running) { if (*o == 2) return 0; *o = 1; fn(); *o = 2; return 0; }
  for (;;) {
    { SimScope sc; sched_point(8); }
    if (*o == 2) { SimScope sc; hb_acquire(o); return 0; }
    if (*o == 1) { SimScope sc; block(o); continue; }
    *o = 1;
    try { fn(); } catch (...) { SimScope sc; *o = 0; wake(o, 1 << 30); throw; }
    SimScope sc;
    *o = 2; hb_release(o); wake(o, 1 << 30);
    return 0;
  }
}

// thread-specific data
static unsigned nkeys = 1;
static void (*keydtor[1024])(void *);
static std::map<unsigned, void *> *gkeys() { static std::map<unsigned, void *> m; return &m; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) noexcept { if (nkeys >= 1024) return EAGAIN; keydtor[nkeys] = d; *k = nkeys++; return 0; }
int pthread_key_delete(pthread_key_t) noexcept { return 0; }
void *pthread_getspecific(pthread_key_t k) noexcept { SimScope sc; auto &m = S.running && S.cur ? S.cur->keys : *gkeys(); auto i = m.find(k); return i == m.end() ? nullptr : i->second; }
int pthread_setspecific(pthread_key_t k, const void *v) noexcept { SimScope sc; auto &m = S.running && S.cur ? S.cur->keys : *gkeys(); m[k] = (void *)v; return 0; }

// C++ static initialisation guards
int __cxa_guard_acquire(long long int *g) {
  u8 *b = (u8 *)g;
  if (!S.running) { if (b[0]) return 0; b[1] = 1; return 1; }
  SimScope sc;
  for (;;) {
    if (b[0]) { hb_acquire(g); return 0; }
    if (b[1]) { block(g); continue; }
    b[1] = 1; return 1;
  }
}
void __cxa_guard_release(long long int *g) { u8 *b = (u8 *)g; b[1] = 0; b[0] = 1; if (S.running) { SimScope sc; hb_release(g); wake(g, 1 << 30); } }
void __cxa_guard_abort(long long int *g) { u8 *b = (u8 *)g; b[1] = 0; if (S.running) { SimScope sc; wake(g, 1 << 30); } }

// futex and other raw system calls
long syscall(long n, ...) noexcept {
  va_list ap; va_start(ap, n);
  long a[6]; for (long &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && S.running) {
    SimScope sc;
    int *addr = (int *)a[0]; int op = (int)a[1] & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_point(9);
      if (*addr != (int)a[2]) { errno = EAGAIN; return -1; }
      const struct timespec *ts = (const struct timespec *)a[3];
      if (ts) { u64 d = abs_ns(ts) + (op == FUTEX_WAIT ? sim_now_ns() : 0); if (block_until(addr, d)) { errno = ETIMEDOUT; return -1; } }
      else block(addr);
      hb_acquire(addr);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { hb_release(addr); int k = wake(addr, (int)a[2]); sched_point(10); return k; }
    errno = ENOSYS; return -1;
  }
  if (n == SYS_gettid && S.running) return 1000 + S.cur->id;
  long r; // raw system call
  register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// clocks
static int do_sleep(u64 ns) { SimScope sc; count("time.sleeps"); static char dummy; (void)dummy; block_until(S.cur, sim_now_ns() + ns); return 0; }
int nanosleep(const struct timespec *r, struct timespec *) { if (!S.running) return 0; return do_sleep(abs_ns(r)); }
int clock_nanosleep(clockid_t, int flags, const struct timespec *r, struct timespec *) {
  if (!S.running) return 0;
  u64 t = abs_ns(r); if (flags & TIMER_ABSTIME) { u64 n = sim_now_ns(); t = t > n ? t - n : 0; } return do_sleep(t); }
int usleep(useconds_t u) { if (!S.running) return 0; return do_sleep((u64)u * 1000); }
unsigned sleep(unsigned s) { if (!S.running) return 0; do_sleep((u64)s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!S.running) { long r = syscall(SYS_clock_gettime, (long)c, ts); return (int)r; }
  u64 n = sim_now_ns(); if (c == CLOCK_MONOTONIC) n -= S.clock_base - 1000000000ull * (S.clock_base % 977);
  ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = (long)(n % 1000000000ull); return 0; }
int gettimeofday(struct timeval *tv, void *) noexcept { u64 n = sim_now_ns(); tv->tv_sec = (time_t)(n / 1000000000ull); tv->tv_usec = (long)(n % 1000000000ull) / 1000; return 0; }
time_t time(time_t *t) noexcept { time_t r = (time_t)(sim_now_ns() / 1000000000ull); if (t) *t = r; return r; }
clock_t clock(void) noexcept { return (clock_t)(now_steps() / 1000 + opt_u("clock", 0) % 1000); }
pid_t getpid(void) noexcept { if (!S.running) { return (pid_t)syscall(SYS_getpid); } return (pid_t)(1000 + opt_u("eseed", 0) % 30000); }
int get_nprocs(void) noexcept { return S.ncpu; }
int get_nprocs_conf(void) noexcept { return S.ncpu; }
long sysconf(int name) noexcept {
  static long (*real)(int) = nullptr;
  if (S.running && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return S.ncpu;
  if (!real) { SimScope sc; real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf"); }
  return real(name);
}
pid_t getppid(void) noexcept { if (!S.running) return (pid_t)syscall(SYS_getppid); return (pid_t)(900 + opt_u("eseed", 0) % 77); }
// environment variables: any name, with a value chosen by the seed
char *getenv(const char *name) noexcept {
  if (S.simdepth || !S.running) {
    for (char **e = environ; e && *e; ++e) { size_t n = strlen(name); if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1; }
    return nullptr;
  }
  SimScope sc;
  u64 k = opt_u("env", 0);
  if (!k) return nullptr;
  count("env.reads");
  for (const char *q = name; *q; ++q) k = (k ^ (u8)*q) * 0x100000001b3ull;
  k ^= k >> 29;
  static const char *v[] = {"0", "1", "2", "4", "static", "dynamic,1", "true", "false", "1e-3", "/tmp", "12", ""};
  return k % 4 == 0 ? nullptr : const_cast<char *>(v[(k >> 8) % 12]);
}
char *secure_getenv(const char *name) noexcept { return getenv(name); }
int gethostname(char *b, size_t n) noexcept { SimScope sc; snprintf(b, n, "host%llu", (unsigned long long)(opt_u("eseed", 0) % 1000)); return 0; }
char *getcwd(char *b, size_t n) noexcept {
  if (!S.running) { long r = syscall(SYS_getcwd, b, n); return r > 0 ? b : nullptr; }
  SimScope sc; if (!b) b = (char *)malloc(n ? n : 64); snprintf(b, n ? n : 64, "/home/u%llu", (unsigned long long)(opt_u("eseed", 0) % 1000)); return b;
}
// entropy
int getentropy(void *b, size_t n) { if (!S.running) return 0; for (size_t i = 0; i < n; ++i) ((u8 *)b)[i] = (u8)S.erng.next(); count("entropy.reads"); return 0; }
ssize_t getrandom(void *b, size_t n, unsigned) { int r = getentropy(b, n); (void)r; return (ssize_t)n; }
unsigned _ZNSt13random_device9_M_getvalEv(void *) { SimScope sc; count("entropy.reads"); return (unsigned)S.erng.next(); }
unsigned _ZNSt13random_device16_M_getval_pretr1Ev(void *) { SimScope sc; count("entropy.reads"); return (unsigned)S.erng.next(); }
void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, void *) {}
void _ZNSt13random_device7_M_finiEv(void *) {}
static u64 rand_state = 1;
void srand(unsigned s) noexcept { rand_state = s; }
int rand(void) noexcept { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return (int)(rand_state >> 33); }
}
