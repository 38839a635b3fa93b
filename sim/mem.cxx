// Simulated heap (seeded contents, layout, recycling and failures) and thread-local storage.
#include "shm.h"
#include <new>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/mman.h>
#include <link.h>

static u8 *arena, *brk_, *arena_end;
static const size_t ARENA = (size_t)3 << 30;
static const u64 MAGIC = 0x5e5ec1a5e5ec1a00ull, FREED = 0xdeadf4eedeadf4eeull;
struct Hdr { u64 magic; u64 size; u64 cap; u64 pad; };
static const size_t TAIL = 16;
static u64 tail = 0xa5a5a5a5a5a5a5a5ull; // what follows each block
static std::vector<u8 *> *freelist; // per size class
static bool fail_work = false;
static u64 wallocs = 0;
static u64 allocs = 0, bytes_live = 0, bytes_limit = 0;
static int lifo = 1; static u64 padmax = 0;
static u64 fail_at = 0; static bool fail_persist = false; static u64 fail_min = 0; static Fault *afault = nullptr;

static const size_t NCLASS = 64 * 3;
static size_t cls(size_t n, size_t &cap) {
  // classes: 32-byte steps up to 1024, then powers of two with one midpoint
  if (n <= 1024) { size_t c = (n + 31) / 32; if (!c) c = 1; cap = c * 32; return c; }
  size_t c = 33, k = 1536; size_t p = 2048;
  for (;;) {
    if (n <= k) { cap = k; return c; }
    ++c;
    if (n <= p) { cap = p; return c; }
    ++c; k *= 2; p *= 2;
  }
}

// Guard mode: one byte for each 8 bytes of the heap says how many of them belong to a live block.
static u8 *shadow;
static void mark(const void *q, size_t n, bool live) {
  if (!shadow) return;
  u8 *s = shadow + (((u8 *)q - arena) >> 3);
  memset(s, live ? 8 : 0, n >> 3);
  if (n & 7) s[n >> 3] = live ? (u8)(n & 7) : 0;
}
void guard_access(const void *a, size_t n, bool write) {
  u64 o = (u64)((const u8 *)a - arena);
  if (!n || !S.running || S.simdepth) return;
  if (o >= ARENA) {
    if ((u64)a < 4096) { SimScope sc; finish("memory", 5, write ? "write through a null pointer" : "read through a null pointer"); }
    return;
  }
  for (u64 b = o, e = o + n; b < e; b = (b | 7) + 1) {
    u64 last = (b | 7) < e - 1 ? 7 : (e - 1) & 7;
    if (last >= shadow[b >> 3]) {
      SimScope sc;
      finish("memory", 4, write ? "write to memory that belongs to no live heap block" : "read of memory that belongs to no live heap block");
    }
  }
}

void junk_fill(void *p, size_t n) {
  u64 *q = (u64 *)p; size_t m = n / 8;
  switch (S.junkmode) {
  case 0: memset(p, 0, n); return;
  case 1: memset(p, 0xff, n); return;          // NaN, -1
  case 2: for (size_t i = 0; i < m; ++i) { double d = S.mrng.uniform() * 2 - 0.5; memcpy(q + i, &d, 8); } break; // plausible numbers
  case 3: memset(p, 0x3f, n); return;          // about 4.8e-4
  case 4: for (size_t i = 0; i < m; ++i) q[i] = S.mrng.next(); break;
  case 5: for (size_t i = 0; i < m; ++i) { double d = (double)(S.mrng.next() % 2000) - 1000; memcpy(q + i, &d, 8); } break;
  case 6: memset(p, 0x01, n); return;
  default: return;                             // 7: leave what is there (zero or stale)
  }
  for (size_t i = m * 8; i < n; ++i) ((u8 *)p)[i] = (u8)S.mrng.next();
}

void mem_init() {
  void *want = (void *)(0x200000000000ull + (opt_u("layout", 0) % 4096) * 0x10000000ull);
  arena = (u8 *)mmap(want, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (arena == MAP_FAILED) finish("simerror", 0, "arena");
  brk_ = arena; arena_end = arena + ARENA;
  freelist = new std::vector<u8 *>[NCLASS];
  S.junkmode = (int)opt_u("junk", 2);
  lifo = (int)opt_u("recycle", 1);
  if (S.junkmode == 2 || S.junkmode == 4 || S.junkmode == 5) { double d = S.mrng.uniform() * 2 - 0.5; memcpy(&tail, &d, 8); }
  S.guard = opt_u("guard", 0);
  S.watch = S.race || S.guard;
  if (S.guard) {
    shadow = (u8 *)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) finish("simerror", 0, "shadow");
    lifo = 0;     // nothing is used again
  }
  padmax = opt_u("layout", 0) ? 1 + opt_u("layout", 0) % 7 : 0;
  bytes_limit = opt_u("heaplimit", 0);
  for (Fault &f : g_faults) if (f.kind == "alloc" || f.kind == "walloc") { fail_work = f.kind == "walloc"; fail_at = f.a; fail_persist = f.b; fail_min = (u64)f.c; afault = &f; }
}

static bool inject(size_t n) {
  ++allocs;
  const bool work = S.cur && S.cur->id != 0;
  if (work) ++wallocs;
  const u64 k = fail_work ? wallocs : allocs;
  if (fail_work && !work) return n > (size_t)1 << 30;
  if (fail_at && n >= fail_min && (k == fail_at || (fail_persist && k > fail_at))) {
    afault->fired++; count("fault.alloc"); ev(EV_FAULT, 2, allocs); return true;
  }
  if (bytes_limit && bytes_live + n > bytes_limit) { count("fault.heaplimit"); return true; }
  return n > (size_t)1 << 30;
}
u64 mem_allocs() { return allocs; }
u64 mem_wallocs() { return wallocs; }

static void *arena_alloc(size_t n, size_t align) {
  size_t cap; size_t extra = align > 32 ? align : 0;
  size_t c = cls(n + extra + TAIL, cap);
  u8 *blk = nullptr;
  auto &fl = freelist[c];
  if (!fl.empty()) {
    if (lifo == 1) { blk = fl.back(); fl.pop_back(); }
    else if (lifo == 2 && fl.size() > 8) { size_t i = S.mrng.below(fl.size()); blk = fl[i]; fl[i] = fl.back(); fl.pop_back(); }
  }
  if (!blk) {
    if (padmax) brk_ += 32 * S.mrng.below(padmax);
    if (brk_ + sizeof(Hdr) + cap > arena_end) return nullptr;
    blk = brk_; brk_ += sizeof(Hdr) + cap;
  }
  Hdr *h = (Hdr *)blk; u8 *p = blk + sizeof(Hdr);
  h->magic = MAGIC | c; h->size = n; h->cap = cap; h->pad = 0;
  u8 *q = p;
  if (extra) { q = (u8 *)(((u64)p + align - 1) & ~(u64)(align - 1)); if (q != p) { Hdr *a = (Hdr *)(q - sizeof(Hdr)); if (a != h) { if (q - p < (long)sizeof(Hdr)) q += align; a = (Hdr *)(q - sizeof(Hdr)); a->magic = MAGIC | 0xff; a->size = n; a->pad = (u64)blk; a->cap = cap; } } }
  bytes_live += n;
  junk_fill(q, n);
  memcpy(q + n, &tail, 8);
  race_clear(q, n);
  mark(q, n, true);
  return q;
}
static bool ours(void *p) { return arena && (u8 *)p >= arena && (u8 *)p < arena_end; }
static void arena_free(void *p) {
  Hdr *h = (Hdr *)((u8 *)p - sizeof(Hdr));
  if (h->magic == FREED) finish("memory", 1, "double free");
  if ((h->magic & ~0xffull) != MAGIC) finish("memory", 2, "free of a corrupted or foreign block");
  u8 *blk = (u8 *)h;
  u64 n = h->size;
  if (memcmp((u8 *)p + n, &tail, 8)) finish("memory", 3, "write past the end of a heap block");
  if (S.race) { --S.simdepth; race_access(p, n ? n : 1, true, false, __builtin_return_address(0)); ++S.simdepth; race_clear(p, n); }
  if ((h->magic & 0xff) == 0xff) { blk = (u8 *)h->pad; h->magic = FREED; h = (Hdr *)blk; }
  size_t c = h->magic & 0xff;
  h->magic = FREED;
  bytes_live -= n;
  mark(p, n, false);
  if (S.junkmode != 7) { size_t m = n > 4096 ? 4096 : n; junk_fill(p, m); }
  if (lifo) freelist[c].push_back(blk);
}

static void *app_alloc(size_t n, size_t align) {
  SimScope sc;
  if (S.race || S.policy) { static u64 k; if (++k % 8 == 0) sched_point(13); }
  if (inject(n)) return nullptr;
  return arena_alloc(n, align);
}
static void app_free(void *p) {
  if (!p) return;
  if (ours(p)) { SimScope sc; arena_free(p); } else free(p);
}

#pragma GCC diagnostic ignored "-Wmissing-declarations"
void *operator new(size_t n) {
  if (in_app()) { void *p = app_alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
  void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (in_app()) return app_alloc(n, 16); return malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void *operator new(size_t n, std::align_val_t a) { if (in_app()) { void *p = app_alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; } return aligned_alloc((size_t)a, (n + (size_t)a - 1) & ~((size_t)a - 1)); }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { app_free(p); }
void operator delete[](void *p) noexcept { app_free(p); }
void operator delete(void *p, size_t) noexcept { app_free(p); }
void operator delete[](void *p, size_t) noexcept { app_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { app_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { app_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { app_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { app_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { app_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { app_free(p); }

extern "C" {
void *__wrap_malloc(size_t n) { if (in_app()) { void *p = app_alloc(n, 16); if (!p) errno = ENOMEM; return p; } return malloc(n); }
void __wrap_free(void *p) { app_free(p); }
void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void *__wrap_realloc(void *o, size_t n) {
  if (!o) return __wrap_malloc(n);
  if (!ours(o)) return realloc(o, n);
  void *p = __wrap_malloc(n); if (!p) return nullptr;
  Hdr *h = (Hdr *)((u8 *)o - sizeof(Hdr)); memcpy(p, o, h->size < n ? h->size : n); app_free(o); return p;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { if (in_app()) return app_alloc(n, a); return aligned_alloc(a, n); }
int __wrap_posix_memalign(void **r, size_t a, size_t n) { if (in_app()) { *r = app_alloc(n, a); return *r ? 0 : ENOMEM; } return posix_memalign(r, a, n); }
}

// ------------------------------------------------------------------ thread-local storage of the plugin
struct TlsMod { const void *image; size_t filesz, memsz, align; };
static std::map<u64, TlsMod> *tlsmods;
void tls_add_module(u64 id, const void *image, size_t filesz, size_t memsz, size_t align) {
  if (!tlsmods) tlsmods = new std::map<u64, TlsMod>;
  (*tlsmods)[id] = TlsMod{image, filesz, memsz, align ? align : 1};
}
struct tls_index_ { u64 mod, off; };
extern "C" void *__tls_get_addr(tls_index_ *t) {
  static void *(*real)(tls_index_ *) = nullptr;
  if (S.running && S.cur && tlsmods && tlsmods->count(t->mod)) {
    SimScope sc;
    void *&b = S.cur->tls[t->mod];
    if (!b) {
      TlsMod &m = (*tlsmods)[t->mod];
      size_t al = m.align < 64 ? 64 : m.align;
      b = aligned_alloc(al, (m.memsz + al - 1) & ~(al - 1));
      memcpy(b, m.image, m.filesz); memset((u8 *)b + m.filesz, 0, m.memsz - m.filesz);
    }
    return (u8 *)b + t->off;
  }
  if (!real) real = (void *(*)(tls_index_ *))dlsym(RTLD_NEXT, "__tls_get_addr");
  return real(t);
}
extern "C" int __cxa_thread_atexit(void (*d)(void *), void *o, void *) noexcept {
  if (!S.running || !S.cur) return 0;
  SimScope sc; S.cur->dtors.push_back({d, o}); return 0;
}
void run_tls_dtors(Fiber *f) {
  while (!f->dtors.empty()) { auto d = f->dtors.back(); { SimScope sc; f->dtors.pop_back(); } d.first(d.second); }
}
void tls_free(Fiber *f) { for (auto &x : f->tls) free(x.second); f->tls.clear(); }
