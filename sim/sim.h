// especia-sim: deterministic simulator for the programs of octoflar/especia.
//
// One run = one forked child of the simulator process = one exactly repeatable execution of the real
// program code, compiled from /repo's working tree into a plugin whose memory accesses, atomics, thread
// functions, allocations, clocks, entropy and input/output all lead into this simulator.
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

struct Rng { // splitmix64 / xorshift
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); }
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double uniform() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum FState { F_FREE, F_RUNNABLE, F_BLOCKED, F_FINISHED };

struct VC { std::vector<u32> c; };

struct Fiber {
  int id; FState state; void *sp; u8 *stack; size_t stack_size;
  void *(*start)(void *); void *arg; void *ret;
  bool detached; int joiner; const void *wait_obj; bool timed; u64 deadline; bool timed_out;
  int simdepth; void *eh[2]; u64 prio; bool stalled; u64 steps;
  std::map<u64, void *> tls; std::vector<std::pair<void (*)(void *), void *>> dtors;
  std::map<unsigned, void *> keys;
  void *once_callable, *once_call;
  // OpenMP
  struct Team *team; int omp_tid; u64 ws_index; u64 single_index;
  // race detector
  int slot; VC vc;
  u64 created_step;
};

struct ShmHeader; // results

struct Sim {
  bool running = false;      // a run is in progress in this (child) process
  int simdepth = 1;          // > 0: executing simulator code
  i64 countdown = INT64_MAX; // steps until the next event
  i64 quota = INT64_MAX;
  u64 total = 0;             // steps before the current quota
  std::vector<Fiber *> fibers; Fiber *cur = nullptr; int runnable = 0; int live = 0;
  u64 next_id = 0;
  // options
  std::map<std::string, std::string> opt;
  u64 fuel = 2000000000ull, crash_step = 0;
  int policy = 0; double p = 0.0; u64 quantum = 0; Rng srng, iorng, mrng, erng;
  std::vector<u64> change_points; size_t cp = 0; u64 lowprio = 0;
  std::vector<std::pair<u64, int>> list; size_t li = 0;
  bool race = false, guard = false, watch = false; bool junk = true; int junkmode = 0; bool paint = true;
  u64 clock_base = 0; u64 slept = 0; int ncpu = 4; int team = 2; bool team_vary = false;
  u64 switches = 0, forced = 0, creates = 0, preempts = 0, maxrun = 0, region = 0;
  u64 sched_hash = 1469598103934665603ull;
};
extern Sim S;
extern u64 g_worker_steps;

struct SimScope { SimScope() { ++S.simdepth; } ~SimScope() { --S.simdepth; } };
inline bool in_app() { return S.running && S.simdepth == 0; }

// scheduler
u64 now_steps();
void set_next();
void sched_point(int kind);
Fiber *new_fiber(void *(*start)(void *), void *arg);
void make_runnable(Fiber *f);
void block(const void *obj);
bool block_until(const void *obj, u64 deadline);
int wake(const void *obj, int n);
void fiber_exit();
u64 sim_now_ns();
void reap(Fiber *f);
void note_finish(Fiber *f);

// race detector
void race_init();
void guard_access(const void *a, size_t n, bool write);
void race_access(const void *a, size_t n, bool write, bool atomic, const void *pc);
void race_clear(const void *a, size_t n);
void hb_release(const void *obj);
void hb_acquire(const void *obj);
void hb_fork(Fiber *parent, Fiber *child);
void hb_join(Fiber *into, Fiber *from);
void slot_release(Fiber *f);

// outcome
[[noreturn]] void finish(const char *kind, long a, const char *msg = "");
void ev(int kind, u64 a, u64 b);
void count(const char *name, u64 n = 1);
enum { EV_CREATE = 1, EV_EXIT = 2, EV_WRITE = 3, EV_READ = 4, EV_OPEN = 5, EV_FAULT = 6, EV_REGION = 7, EV_JOIN = 8 };

// io / memory
void io_init();
void io_finish();
void mem_init(); 
void run_tls_dtors(Fiber *f);
void tls_add_module(u64 modid, const void *image, size_t filesz, size_t memsz, size_t align);
void tls_free(Fiber *f);

struct Fault { std::string kind, name; u64 a = 0, b = 0; i64 c = 0; u64 fired = 0; };
extern std::vector<Fault> g_faults;
extern std::map<std::string, std::string> g_files;
extern std::map<std::string, u64> g_counters;
u64 opt_u(const char *k, u64 def);
double opt_d(const char *k, double def);
#endif
