// Simulated OpenMP runtime (the libgomp interface) on fibers.
#include "shm.h"
#include <stdlib.h>

struct WS { bool init = false; i64 start = 0, end = 0, incr = 1, chunk = 1, next = 0; int kind = 0; unsigned sections = 0, next_section = 1; int done = 0; bool taken = false; void *copy = nullptr; std::vector<u64> static_pos; };
struct Team { int n; void (*fn)(void *); void *data; int arrived = 0; u64 gen = 0; int finished = 0; std::map<u64, WS> ws; std::map<u64, int> singles; std::map<u64, void *> copies; Team *parent; WS *init = nullptr; };
struct Start { Team *t; int tid; };

static int want_threads(unsigned req) {
  int n = req ? (int)req : S.team;
  if (S.team_vary) n = 1 + (int)S.erng.below((u64)n);
  return n < 1 ? 1 : n;
}

static void *team_main(void *p) {
  Start *s; Team *t;
  { SimScope sc; s = (Start *)p; t = s->t; S.cur->team = t; S.cur->omp_tid = s->tid; delete s; }
  t->fn(t->data);
  SimScope sc; sched_point(30);
  t->finished++; hb_release(t); wake(t, 1 << 30);
  return nullptr;
}

static void parallel(void (*fn)(void *), void *data, unsigned req, const WS *init) {
  Fiber *me; Team t; Team *saved; int stid; u64 sws, ssg; std::vector<Fiber *> kids;
  {
    SimScope sc;
    S.region++; ev(EV_REGION, S.region, 0); count("omp.regions");
    me = S.cur; saved = me->team; stid = me->omp_tid; sws = me->ws_index; ssg = me->single_index;
    t.n = saved && opt_u("nested", 0) == 0 ? 1 : want_threads(req); t.fn = fn; t.data = data; t.parent = saved;
    if (init) t.ws[0] = *init;
    me->team = &t; me->omp_tid = 0; me->ws_index = 0; me->single_index = 0;
    for (int i = 1; i < t.n; ++i) {
      S.total = now_steps(); S.quota = S.countdown = 0;
      Fiber *f = new_fiber(team_main, new Start{&t, i});
      hb_fork(me, f); ev(EV_CREATE, (u64)f->id, 1); set_next(); kids.push_back(f);
    }
    sched_point(31);
  }
  fn(data);
  {
    SimScope sc;
    sched_point(32);
    for (Fiber *f : kids) { while (f->state != F_FINISHED) block((const void *)f); hb_join(me, f); reap(f); }
    hb_acquire(&t);
    me->team = saved; me->omp_tid = stid; me->ws_index = sws; me->single_index = ssg;
    kids.clear(); kids.shrink_to_fit();
    t.ws.clear(); t.singles.clear(); t.copies.clear();
  }
}

static void barrier() {
  Team *t = S.cur->team; if (!t || t->n == 1) return;
  sched_point(33);
  hb_release(t);
  u64 g = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake((const char *)t + 1, 1 << 30); }
  else while (t->gen == g) block((const char *)t + 1);
  hb_acquire(t);
}

static Team serial; // outside of any parallel region
static Team *team() { return S.cur->team ? S.cur->team : (serial.n = 1, &serial); }
static WS &ws() { return team()->ws[S.cur->ws_index]; }

enum { K_STATIC, K_DYNAMIC, K_GUIDED };
static int kind_of_runtime() { return (int)(S.erng.below(3)); }

static bool loop_next(i64 *is, i64 *ie) {
  sched_point(34);
  WS &w = ws(); Team *t = team();
  hb_acquire(&w); hb_release(&w);
  i64 trips = w.incr > 0 ? (w.end > w.start ? (w.end - w.start + w.incr - 1) / w.incr : 0) : (w.start > w.end ? (w.start - w.end - w.incr - 1) / -w.incr : 0);
  i64 a, n;
  if (w.kind == K_STATIC) {
    if (w.static_pos.empty()) w.static_pos.assign((size_t)t->n, 0);
    u64 &k = w.static_pos[(size_t)S.cur->omp_tid]; i64 tid = S.cur->omp_tid;
    if (w.chunk <= 0) { if (k++) return false; i64 q = trips / t->n, r = trips % t->n; a = tid * q + (tid < r ? tid : r); n = q + (tid < r ? 1 : 0); }
    else { a = ((i64)k++ * t->n + tid) * w.chunk; n = w.chunk; }
  } else {
    i64 c = w.chunk > 0 ? w.chunk : 1;
    if (w.kind == K_GUIDED) { i64 g = (trips - w.next) / t->n; if (g > c) c = g; }
    a = w.next; n = c; w.next += c;
  }
  if (a >= trips || n <= 0) return false;
  if (a + n > trips) n = trips - a;
  *is = w.start + a * w.incr; *ie = w.start + (a + n) * w.incr;
  return true;
}
static bool loop_start(int kind, i64 s, i64 e, i64 inc, i64 chunk, i64 *is, i64 *ie) {
  SimScope sc; Fiber *f = S.cur; f->ws_index++;
  WS &w = ws();
  if (!w.init) { w.init = true; w.kind = kind; w.start = s; w.end = e; w.incr = inc; w.chunk = chunk; w.next = 0; w.static_pos.clear(); }
  return loop_next(is, ie);
}

extern "C" {
int omp_get_thread_num(void) { return S.running ? S.cur->omp_tid : 0; }
int omp_get_num_threads(void) { return S.running && S.cur->team ? S.cur->team->n : 1; }
int omp_get_max_threads(void) { return S.team; }
int omp_get_num_procs(void) { return S.ncpu; }
int omp_in_parallel(void) { return S.running && S.cur->team && S.cur->team->n > 1; }
int omp_get_level(void) { int k = 0; for (Team *t = S.cur->team; t; t = t->parent) ++k; return k; }
void omp_set_num_threads(int n) { S.team = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { return (double)sim_now_ns() * 1e-9; }

void GOMP_parallel(void (*fn)(void *), void *d, unsigned n, unsigned) { parallel(fn, d, n, nullptr); }
void GOMP_barrier(void) { SimScope sc; barrier(); }

static void lock_obj(const void *o, std::map<const void *, int> &m) { sched_point(35); while (m.count(o)) block(o); m[o] = S.cur->id; hb_acquire(o); }
static void unlock_obj(const void *o, std::map<const void *, int> &m) { m.erase(o); hb_release(o); wake(o, 1); sched_point(36); }
static std::map<const void *, int> &crit() { static std::map<const void *, int> m; return m; }
static char dflt, atomic_;
void GOMP_critical_start(void) { SimScope sc; lock_obj(&dflt, crit()); }
void GOMP_critical_end(void) { SimScope sc; unlock_obj(&dflt, crit()); }
void GOMP_critical_name_start(void **p) { SimScope sc; lock_obj(p, crit()); }
void GOMP_critical_name_end(void **p) { SimScope sc; unlock_obj(p, crit()); }
void GOMP_atomic_start(void) { SimScope sc; lock_obj(&atomic_, crit()); }
void GOMP_atomic_end(void) { SimScope sc; unlock_obj(&atomic_, crit()); }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { SimScope sc; lock_obj(l, crit()); }
void omp_unset_lock(void *l) { SimScope sc; unlock_obj(l, crit()); }

bool GOMP_single_start(void) { SimScope sc; sched_point(37); Team *t = team(); u64 k = ++S.cur->single_index; return t->singles[k]++ == 0; }
void *GOMP_single_copy_start(void) { SimScope sc; Team *t = team(); u64 k = ++S.cur->single_index; if (t->singles[k]++ == 0) return nullptr; barrier(); return t->copies[k]; }
void GOMP_single_copy_end(void *d) { SimScope sc; team()->copies[S.cur->single_index] = d; barrier(); }

unsigned GOMP_sections_next(void) { SimScope sc; sched_point(38); WS &w = ws(); hb_acquire(&w); hb_release(&w); if (w.next_section > w.sections) return 0; return w.next_section++; }
unsigned GOMP_sections_start(unsigned n) { { SimScope sc; S.cur->ws_index++; WS &w = ws(); if (!w.init) { w.init = true; w.sections = n; w.next_section = 1; } } return GOMP_sections_next(); }
void GOMP_sections_end(void) { SimScope sc; barrier(); }
void GOMP_sections_end_nowait(void) { SimScope sc; sched_point(39); }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned) { SimScope sc; WS w; w.init = true; w.sections = cnt; --S.simdepth; parallel(fn, d, n, &w); ++S.simdepth; }

void GOMP_loop_end(void) { SimScope sc; barrier(); }
void GOMP_loop_end_nowait(void) { SimScope sc; sched_point(40); }
bool GOMP_loop_end_cancel(void) { SimScope sc; barrier(); return false; }
#define LOOPK(name, KD) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { i64 a, b; if (!loop_start(KD, s, e, i, c, &a, &b)) return false; *is = a; *ie = b; return true; } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { SimScope sc; i64 a, b; if (!loop_next(&a, &b)) return false; *is = a; *ie = b; return true; } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { (void)up; i64 a, b; if (!loop_start(KD, (i64)s, (i64)e, (i64)i, (i64)c, &a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true; } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { SimScope sc; i64 a, b; if (!loop_next(&a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true; } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { SimScope sc; WS w; w.init = true; w.kind = KD; w.start = s; w.end = e; w.incr = i; w.chunk = c; --S.simdepth; parallel(fn, d, n, &w); ++S.simdepth; }
LOOPK(static, K_STATIC) LOOPK(dynamic, K_DYNAMIC) LOOPK(guided, K_GUIDED)
LOOPK(nonmonotonic_dynamic, K_DYNAMIC) LOOPK(nonmonotonic_guided, K_GUIDED)
#define LOOPR(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { i64 a, b; if (!loop_start(kind_of_runtime(), s, e, i, 1, &a, &b)) return false; *is = a; *ie = b; return true; } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { SimScope sc; i64 a, b; if (!loop_next(&a, &b)) return false; *is = a; *ie = b; return true; } \
  bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { i64 a, b; if (!loop_start(kind_of_runtime(), (i64)s, (i64)e, (i64)i, 1, &a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true; } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { SimScope sc; i64 a, b; if (!loop_next(&a, &b)) return false; *is = (unsigned long long)a; *ie = (unsigned long long)b; return true; } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { SimScope sc; WS w; w.init = true; w.kind = kind_of_runtime(); w.start = s; w.end = e; w.incr = i; w.chunk = 1; --S.simdepth; parallel(fn, d, n, &w); ++S.simdepth; }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
}
