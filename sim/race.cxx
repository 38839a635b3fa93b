// Happens-before race detector (vector clocks) and the instrumentation callbacks.
#include "shm.h"
#include <string.h>
#include <sys/mman.h>

static std::vector<u32> slotclock;
static std::vector<char> slotused;
static std::unordered_map<const void *, VC> sync_vc;
static u32 epoch = 1;

struct Acc { u32 clk; u16 slot; u8 mask; u8 flags; }; // flags: 1 valid, 2 atomic
struct Cell { u64 key; u32 epoch; u32 pad; Acc w; Acc r[4]; u64 wpc; u64 rpc; };
static Cell *table; static const size_t TBITS = 20, TN = (size_t)1 << TBITS; static size_t used;

static void join(VC &a, const VC &b) {
  if (a.c.size() < b.c.size()) a.c.resize(b.c.size(), 0);
  for (size_t i = 0; i < b.c.size(); ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static u32 get(const VC &v, size_t i) { return i < v.c.size() ? v.c[i] : 0; }
static void inc(Fiber *f) { size_t s = (size_t)f->slot; if (f->vc.c.size() <= s) f->vc.c.resize(s + 1, 0); f->vc.c[s]++; slotclock[s] = f->vc.c[s]; }

void race_init() {
  if (!S.race) return;
  table = (Cell *)mmap(nullptr, TN * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void hb_fork(Fiber *parent, Fiber *child) {
  if (!S.race) return;
  size_t s = 0;
  while (s < slotused.size() && slotused[s]) ++s;
  if (s == slotused.size()) { slotused.push_back(0); slotclock.push_back(0); }
  slotused[s] = 1; child->slot = (int)s;
  if (parent) child->vc = parent->vc;
  if (child->vc.c.size() <= s) child->vc.c.resize(s + 1, 0);
  child->vc.c[s] = slotclock[s];
  inc(child);
  if (parent) inc(parent);
}
void slot_release(Fiber *f) {
  if (!S.race) return;
  if (f->slot >= 0) slotused[(size_t)f->slot] = 0;
  if (S.fibers.size() == 1) { ++epoch; used = 0; sync_vc.clear(); }
}
void hb_release(const void *o) { if (!S.race || !S.cur || S.cur->slot < 0) return; join(sync_vc[o], S.cur->vc); inc(S.cur); }
void hb_acquire(const void *o) { if (!S.race || !S.cur || S.cur->slot < 0) return; auto i = sync_vc.find(o); if (i != sync_vc.end()) join(S.cur->vc, i->second); }
void hb_join(Fiber *into, Fiber *from) {
  if (!S.race) return;
  auto i = sync_vc.find((const void *)from);
  if (i != sync_vc.end()) { join(into->vc, i->second); sync_vc.erase(i); }
}

static Cell *find(u64 key, bool create) {
  u64 h = (key * 0x9E3779B97F4A7C15ull) >> (64 - TBITS);
  for (;;) {
    Cell &c = table[h];
    if (c.epoch != epoch) {
      if (!create) return nullptr;
      if (++used > TN * 3 / 4) { ++epoch; used = 1; count("race.table_reset"); h = (key * 0x9E3779B97F4A7C15ull) >> (64 - TBITS); Cell &d = table[h]; memset(&d, 0, sizeof d); d.key = key; d.epoch = epoch; return &d; }
      memset(&c, 0, sizeof c); c.key = key; c.epoch = epoch; return &c;
    }
    if (c.key == key) return &c;
    h = (h + 1) & (TN - 1);
  }
}

void race_clear(const void *a, size_t n) {
  if (!S.race || !S.running || S.fibers.size() < 2 || !n || n > (1 << 20)) return;
  u64 k = (u64)a >> 3, e = ((u64)a + n + 7) >> 3;
  for (; k < e; ++k) { Cell *c = find(k, false); if (c) { memset(&c->w, 0, sizeof c->w); memset(c->r, 0, sizeof c->r); } }
}

static void report(u64 addr, u64 pc1, u64 pc2, bool w1, bool w2, u32 f1, u32 f2) {
  count("race.reports");
  for (u64 i = 0; i < shm->race_n; ++i) if (shm->races[i].pc1 == pc1 && shm->races[i].pc2 == pc2) return;
  if (shm->race_n >= Shm::RACEN) return;
  RaceRep &r = shm->races[shm->race_n++];
  r.addr = addr; r.pc1 = pc1; r.pc2 = pc2; r.w1 = w1; r.w2 = w2; r.f1 = f1; r.f2 = f2;
}

static void one(u64 key, u8 mask, bool write, bool atomic, u64 pc) {
  Cell *c = find(key, true);
  Fiber *f = S.cur;
  u16 me = (u16)f->slot; u32 clk = f->vc.c[me];
  u8 af = atomic ? 2 : 0;
  if ((c->w.flags & 1) && (c->w.mask & mask) && c->w.slot != me && c->w.clk > get(f->vc, c->w.slot) && !(atomic && (c->w.flags & 2)))
    report(key << 3, c->wpc, pc, true, write, c->w.slot, me);
  if (write) {
    for (Acc &r : c->r)
      if ((r.flags & 1) && (r.mask & mask) && r.slot != me && r.clk > get(f->vc, r.slot) && !(atomic && (r.flags & 2)))
        report(key << 3, c->rpc, pc, false, true, r.slot, me);
    c->w = Acc{clk, me, mask, (u8)(1 | af)}; c->wpc = pc;
    // reads that happened before this write are subsumed
    for (Acc &r : c->r) if ((r.flags & 1) && (r.slot == me || r.clk <= get(f->vc, r.slot)) && (r.mask & ~mask) == 0) r.flags = 0;
  } else {
    Acc *slot = nullptr;
    for (Acc &r : c->r) if ((r.flags & 1) && r.slot == me) { slot = &r; break; }
    if (!slot) for (Acc &r : c->r) if (!(r.flags & 1) || r.clk <= get(f->vc, r.slot)) { slot = &r; break; }
    if (!slot) slot = &c->r[(key ^ clk) & 3];
    u8 m = (slot->flags & 1) && slot->slot == me && slot->clk == clk ? (u8)(slot->mask | mask) : mask;
    *slot = Acc{clk, me, m, (u8)(1 | af)}; c->rpc = pc;
  }
}

void race_access(const void *a, size_t n, bool write, bool atomic, const void *pc) {
  if (!S.running || S.simdepth || S.fibers.size() < 2) return;
  Fiber *f = S.cur;
  if (f->id != 0 && (u64)a - (u64)f->stack < f->stack_size) return; // a worker's own stack
  ++S.simdepth;
  u64 b = (u64)a, e = b + n;
  while (b < e) {
    u64 k = b >> 3, lo = b & 7, hi = (e - (k << 3)) < 8 ? (e - (k << 3)) : 8;
    u8 mask = (u8)(((1u << hi) - 1) & ~((1u << lo) - 1));
    one(k, mask, write, atomic, (u64)pc);
    b = (k + 1) << 3;
  }
  --S.simdepth;
}

extern "C" void sim_tick_slow();
#define TICK() do { if (__builtin_expect(--S.countdown < 0, 0)) sim_tick_slow(); } while (0)
static inline void watched(const void *p, size_t n, bool w, bool at, const void *pc) {
  if (S.guard) guard_access(p, n, w);
  if (S.race) race_access(p, n, w, at, pc);
}
#define ACC(p, n, w, at) do { if (__builtin_expect(S.watch, 0)) watched((p), (n), (w), (at), __builtin_return_address(0)); } while (0)

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { TICK(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(sz) \
  void __tsan_read##sz(void *p) { TICK(); ACC(p, sz, false, false); } \
  void __tsan_write##sz(void *p) { TICK(); ACC(p, sz, true, false); } \
  void __tsan_unaligned_read##sz(void *p) { TICK(); ACC(p, sz, false, false); } \
  void __tsan_unaligned_write##sz(void *p) { TICK(); ACC(p, sz, true, false); } \
  void __tsan_volatile_read##sz(void *p) { TICK(); ACC(p, sz, false, true); } \
  void __tsan_volatile_write##sz(void *p) { TICK(); ACC(p, sz, true, true); } \
  void __tsan_unaligned_volatile_read##sz(void *p) { TICK(); ACC(p, sz, false, true); } \
  void __tsan_unaligned_volatile_write##sz(void *p) { TICK(); ACC(p, sz, true, true); } \
  void __tsan_read##sz##_pc(void *p, void *) { TICK(); ACC(p, sz, false, false); } \
  void __tsan_write##sz##_pc(void *p, void *) { TICK(); ACC(p, sz, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { TICK(); ACC(p, n, false, false); }
void __tsan_write_range(void *p, size_t n) { TICK(); ACC(p, n, true, false); }
void __tsan_vptr_update(void **p, void *v) { TICK(); if (*p != v) ACC(p, 8, true, false); }
void __tsan_vptr_read(void **p) { TICK(); ACC(p, 8, false, false); }

// block operations of the program, redirected by the linker's --wrap
void *__wrap_memcpy(void *d, const void *s, size_t n) { TICK(); ACC(s, n, false, false); ACC(d, n, true, false); return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { TICK(); ACC(s, n, false, false); ACC(d, n, true, false); return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { TICK(); ACC(d, n, true, false); return memset(d, c, n); }

// atomics: executed in one piece, with a scheduling point before
#define AT(o) { SimScope sc; if (S.running) sched_point(11); }
#define ACQ(p, mo) if (S.race && (mo) != 0 && (mo) != 3) { SimScope sc; hb_acquire(p); }
#define REL(p, mo) if (S.race && (mo) >= 3) { SimScope sc; hb_release(p); }
#define ATOMICS(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { AT(p); ACC((const void *)p, sizeof(T), false, true); T v = *p; ACQ((const void *)p, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = v; ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(o + v); ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(o - v); ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(o & v); ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(o | v); ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(o ^ v); ACQ((const void *)p, mo); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { AT(p); ACC((const void *)p, sizeof(T), true, true); REL((const void *)p, mo); T o = *p; *p = (T)(~(o & v)); ACQ((const void *)p, mo); return o; } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { AT(p); ACC((const void *)p, sizeof(T), true, true); T o = *p; if (o == *e) { REL((const void *)p, mo); *p = v; ACQ((const void *)p, mo); return true; } ACQ((const void *)p, mo); *e = o; return false; } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int f) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f); return e; }
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int) { SimScope sc; if (S.running) { sched_point(12); hb_acquire((const void *)1); hb_release((const void *)1); } }
void __tsan_atomic_signal_fence(int) {}
}
