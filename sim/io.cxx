// Simulated files, standard streams and their faults.
#include "shm.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/ioctl.h>
#include <dlfcn.h>
#include <iostream>
#include <ext/stdio_sync_filebuf.h>
#include <ext/stdio_filebuf.h>

struct SFile { std::string name; const std::string *data = nullptr; std::string owned; size_t pos = 0; bool out = false; bool open = true; FILE *fp = nullptr; u64 reads = 0; };
static std::map<int, SFile> *fds;
static const int FDBASE = 1000;
static int next_fd = FDBASE;
static std::map<FILE *, int> *fpfd;
static u64 rchunk = 0, wchunk = 0; static u64 wops[3], delivered[3];
extern "C" unsigned long sim_delivered(int fd) { return delivered[fd]; }
static int mode_out = 0;
u64 worker_steps();

static Fault *rfault(const std::string &name, size_t pos, size_t &n) {
  for (Fault &f : g_faults) {
    if (f.kind == "readerr" && f.name == name) {
      if (pos >= f.a) { return &f; }
      if (pos + n > f.a) n = f.a - pos;
    }
    if (f.kind == "readonce" && f.name == name && !f.fired) {
      if (pos >= f.a) return &f;
      if (pos + n > f.a) n = f.a - pos;
    }
  }
  return nullptr;
}

static ssize_t sim_read(int fd, void *buf, size_t n) {
  SimScope sc;
  auto i = fds->find(fd);
  if (i == fds->end() || i->second.out) { errno = EBADF; return -1; }
  SFile &f = i->second;
  if (S.running) sched_point(20);
  f.reads++;
  if (f.reads > 4000000) finish("hang", 0, "endless reading");
  size_t m = n;
  if (Fault *ft = rfault(f.name, f.pos, m)) { ft->fired++; count("fault.read_error"); ev(EV_FAULT, 3, f.pos); errno = (int)ft->c; return -1; }
  size_t left = f.data->size() - f.pos;
  if (m > left) m = left;
  if (rchunk && m > 1) { u64 k = 1 + S.iorng.below(rchunk); if (k < m) { m = k; count("fault.short_read"); } }
  memcpy(buf, f.data->data() + f.pos, m);
  f.pos += m;
  count("io.reads"); 
  return (ssize_t)m;
}

static ssize_t sim_write(int fd, const void *buf, size_t n) {
  SimScope sc;
  if (fd != 1 && fd != 2) { errno = EBADF; return -1; }
  if (S.running) sched_point(21);
  wops[fd]++;
  if (wops[fd] > 4000000) finish("hang", 0, "endless writing");
  size_t m = n;
  for (Fault &f : g_faults) {
    if (f.kind == "writecap" && f.b == (u64)fd) {
      if (delivered[fd] >= f.a) { f.fired++; count("fault.write_error"); ev(EV_FAULT, 4, delivered[fd]); errno = (int)f.c; return -1; }
      if (delivered[fd] + m > f.a) { m = f.a - delivered[fd]; count("fault.torn_write"); }
    }
    if (f.kind == "writeonce" && f.b == (u64)fd && wops[fd] == f.a) { f.fired++; count("fault.write_error_once"); ev(EV_FAULT, 5, wops[fd]); errno = (int)f.c; return -1; }
  }
  if (wchunk && m > 1) { u64 k = 1 + S.iorng.below(wchunk); if (k < m) { m = k; count("fault.short_write"); } }
  char *dst = fd == 1 ? shm->out : shm->err; u64 &len = fd == 1 ? shm->out_n : shm->err_n; size_t cap = fd == 1 ? Shm::OUT : Shm::ERR;
  if (len + m > cap) finish("hang", 0, "endless output");
  memcpy(dst + len, buf, m); len += m;
  ev(EV_WRITE, (u64)fd, m);
  delivered[fd] += m;
  count("io.writes");
  return (ssize_t)m;
}

// what glibc does around write(2) for a FILE: continue after partial writes
static ssize_t file_write(int fd, const char *b, size_t n) {
  size_t done = 0;
  while (done < n) { ssize_t k = sim_write(fd, b + done, n - done); if (k < 0) break; done += (size_t)k; }
  return (ssize_t)done;
}
static ssize_t ck_write(void *c, const char *b, size_t n) { int fd = (int)(long)c; ssize_t r = file_write(fd, b, n); return r; }
static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(long)c, b, n); }
static int ck_seek(void *c, off64_t *off, int wh) {
  auto i = fds->find((int)(long)c); if (i == fds->end()) { errno = EBADF; return -1; }
  if ((long)c < FDBASE) { errno = ESPIPE; return -1; }
  SFile &f = i->second; off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f.pos : (off64_t)f.data->size();
  b += *off; if (b < 0) { errno = EINVAL; return -1; } f.pos = (size_t)b > f.data->size() ? f.data->size() : (size_t)b; *off = b; return 0; }
static int ck_close(void *) { return 0; }

static FILE *cookie(int fd, const char *mode, bool seekable) {
  cookie_io_functions_t io; memset(&io, 0, sizeof io);
  io.read = ck_read; io.write = ck_write; io.close = ck_close; if (seekable) io.seek = ck_seek;
  FILE *f = fopencookie((void *)(long)fd, mode, io);
  (*fpfd)[f] = fd;
  return f;
}

static std::streambuf *bufs[3];
void io_init() {
  fds = new std::map<int, SFile>; fpfd = new std::map<FILE *, int>;
  rchunk = opt_u("rchunk", 0); wchunk = opt_u("wchunk", 0); mode_out = (int)opt_u("stdout", 0);
  SFile f; f.name = "<stdin>"; f.data = &g_files["<stdin>"]; (*fds)[0] = f;
  SFile o; o.name = "<stdout>"; o.out = true; (*fds)[1] = o; o.name = "<stderr>"; (*fds)[2] = o;
  FILE *in = cookie(0, "r", false), *out = cookie(1, "w", false), *err = cookie(2, "w", false);
  setvbuf(in, nullptr, _IOFBF, 4096);
  setvbuf(out, nullptr, mode_out == 1 ? _IOLBF : _IOFBF, mode_out == 1 ? 1024 : 4096);
  setvbuf(err, nullptr, _IONBF, 0);
  stdin = in; stdout = out; stderr = err;
  std::cin.rdbuf(bufs[0] = new __gnu_cxx::stdio_sync_filebuf<char>(in));
  std::cout.rdbuf(bufs[1] = new __gnu_cxx::stdio_sync_filebuf<char>(out));
  std::cerr.rdbuf(bufs[2] = new __gnu_cxx::stdio_sync_filebuf<char>(err));
  std::clog.rdbuf(bufs[2]);
}

// what the C++ runtime and libc do at exit
void io_finish() {
  try { std::cout.flush(); std::cerr.flush(); std::clog.flush(); } catch (...) {}
  ++S.simdepth;
  fflush(stdout); fflush(stderr);
}

static std::string normal(const char *p) { std::string s(p); while (s.compare(0, 2, "./") == 0) s.erase(0, 2); return s; }

static int sim_open(const char *path, int *err) {
  SimScope sc;
  if (S.running) sched_point(22);
  std::string n = normal(path);
  count("io.opens");
  for (Fault &f : g_faults) if (f.kind == "openerr" && f.name == n) { f.fired++; count("fault.open_error"); *err = (int)f.c; return -1; }
  if (n == "/dev/urandom" || n == "/dev/random") {
    int fd = next_fd++; SFile f; f.name = n; SFile &g = ((*fds)[fd] = f); for (int i = 0; i < 4096; ++i) g.owned.push_back((char)S.erng.next()); g.data = &g.owned; count("entropy.reads"); return fd; }
  if (n == "/dev/null") { int fd = next_fd++; SFile f; f.name = n; SFile &g = ((*fds)[fd] = f); g.data = &g.owned; return fd; }
  auto i = g_files.find(n);
  if (i == g_files.end() || n == "<stdin>") { *err = ENOENT; return -1; }
  int fd = next_fd++;
  SFile f; f.name = n; f.data = &i->second; (*fds)[fd] = f;
  ev(EV_OPEN, (u64)fd, i->second.size());
  return fd;
}

template <class F> static F real(const char *n) { SimScope sc; return (F)dlsym(RTLD_NEXT, n); }
static bool simfd(int fd) { return S.running && fds && (fd >= FDBASE || fd <= 2) && fds->count(fd); }

extern "C" {
FILE *fopen(const char *path, const char *mode) {
  if (!S.running) { static auto r = real<FILE *(*)(const char *, const char *)>("fopen"); return r(path, mode); }
  if (mode[0] != 'r') { count("io.fopen_for_write"); errno = EROFS; return nullptr; }
  int err = 0; int fd = sim_open(path, &err);
  if (fd < 0) { errno = err; return nullptr; }
  SimScope sc; FILE *f = cookie(fd, "r", true); setvbuf(f, nullptr, _IOFBF, 4096); return f;
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
int fclose(FILE *f) {
  static auto r = real<int (*)(FILE *)>("fclose");
  if (S.running && fpfd) { SimScope sc; auto i = fpfd->find(f); if (i != fpfd->end()) { int fd = i->second; fpfd->erase(i); if (fd >= FDBASE) fds->erase(fd); } }
  return r(f);
}
int fileno(FILE *f) noexcept {
  if (S.running && fpfd) { SimScope sc; auto i = fpfd->find(f); if (i != fpfd->end()) return i->second; }
  static auto r = real<int (*)(FILE *)>("fileno"); return r(f);
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap);
  if (!S.running) { static auto r = real<int (*)(const char *, int, ...)>("open"); return r(path, flags, m); }
  if ((flags & O_ACCMODE) != O_RDONLY) { errno = EROFS; return -1; }
  int err = 0; int fd = sim_open(path, &err); if (fd < 0) errno = err; return fd;
}
int open64(const char *path, int flags, ...) { return open(path, flags, 0); }
int openat(int d, const char *path, int flags, ...) { if (!S.running) { static auto r = real<int (*)(int, const char *, int, ...)>("openat"); return r(d, path, flags, 0); } return open(path, flags, 0); }
int close(int fd) {
  if (simfd(fd)) { SimScope sc; fds->erase(fd); return 0; }
  static auto r = real<int (*)(int)>("close"); return r(fd);
}
ssize_t read(int fd, void *b, size_t n) {
  if (simfd(fd)) return sim_read(fd, b, n);
  static auto r = real<ssize_t (*)(int, void *, size_t)>("read"); return r(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (simfd(fd)) return sim_write(fd, b, n);
  static auto r = real<ssize_t (*)(int, const void *, size_t)>("write"); return r(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (simfd(fd)) { SimScope sc; std::string s; for (int i = 0; i < c; ++i) s.append((const char *)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
  static auto r = real<ssize_t (*)(int, const struct iovec *, int)>("writev"); return r(fd, v, c);
}
off_t lseek(int fd, off_t o, int wh) noexcept {
  if (simfd(fd)) { SimScope sc; off64_t x = o; if (ck_seek((void *)(long)fd, &x, wh)) return -1; return x; }
  static auto r = real<off_t (*)(int, off_t, int)>("lseek"); return r(fd, o, wh);
}
off64_t lseek64(int fd, off64_t o, int wh) noexcept { return lseek(fd, o, wh); }
int fstat(int fd, struct stat *st) noexcept {
  if (simfd(fd)) { SimScope sc; memset(st, 0, sizeof *st); SFile &f = (*fds)[fd]; st->st_mode = fd >= FDBASE ? S_IFREG | 0644 : S_IFIFO | 0600; st->st_size = f.data ? (off_t)f.data->size() : 0; st->st_blksize = 4096; return 0; }
  static auto r = real<int (*)(int, struct stat *)>("fstat"); return r(fd, st);
}
int isatty(int fd) noexcept { if (simfd(fd)) return fd == 1 && mode_out == 1; static auto r = real<int (*)(int)>("isatty"); return r(fd); }
int poll(struct pollfd *p, nfds_t n, int t) {
  if (S.running) { for (nfds_t i = 0; i < n; ++i) p[i].revents = p[i].events; return (int)n; }
  static auto r = real<int (*)(struct pollfd *, nfds_t, int)>("poll"); return r(p, n, t);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
  if (simfd(fd)) { if (req == FIONREAD) { SFile &f = (*fds)[fd]; *(int *)a = f.data ? (int)(f.data->size() - f.pos) : 0; return 0; } errno = ENOTTY; return -1; }
  static auto r = real<int (*)(int, unsigned long, void *)>("ioctl"); return r(fd, req, a);
}
}

// std::ios_base::sync_with_stdio(false): the standard streams get buffers of their own on the simulated descriptors
namespace std { }
extern "C" bool _ZNSt8ios_base15sync_with_stdioEb(bool sync) {
  static bool state = true;
  bool old = state;
  if (!S.running) return old;
  SimScope sc;
  if (!sync && state) {
    state = false;
    std::cout.rdbuf(bufs[1] = new __gnu_cxx::stdio_filebuf<char>(stdout, std::ios::out));
    std::cin.rdbuf(bufs[0] = new __gnu_cxx::stdio_filebuf<char>(stdin, std::ios::in));
    std::cerr.rdbuf(bufs[2] = new __gnu_cxx::stdio_filebuf<char>(stderr, std::ios::out));
    std::clog.rdbuf(bufs[2]);
  }
  return old;
}
