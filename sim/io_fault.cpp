// The simulated disk: real files below scratchDir(), reached through these
// definitions of the C library's file calls (they win over libc's for the
// executable and for every shared library, libstdc++ and tinyxml2 included).
// Everything outside the scratch directory is forwarded untouched.
#include "fault.h"
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>

namespace {
sim::IoPlan g_plan;
bool g_armed = false;
sim::IoStats g_st;

constexpr int kMaxFd = 256;
struct FdState { bool tracked; int64_t rd, wr; uint64_t calls; };
FdState g_fd[kMaxFd];
constexpr int kMaxFile = 64;
struct FileState { FILE* f; bool err; };
FileState g_file[kMaxFile];

template <class F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
#define REAL(name) static auto real_fn = real<decltype(&::name)>(#name)

bool below(const char* path) {
  if (!g_armed || !path) return false;
  // runs work in the scratch directory
  if (path[0] != '/') return true;
  static char cwd[4096];
  static size_t n = 0;
  if (!n && getcwd(cwd, sizeof cwd)) n = strlen(cwd);
  return n > 1 && strncmp(path, cwd, n) == 0 && path[n] == '/';
}
bool tracked(int fd) { return g_armed && fd >= 0 && fd < kMaxFd && g_fd[fd].tracked; }
FileState* fileOf(FILE* f) {
  if (!g_armed) return nullptr;
  for (auto& x : g_file) if (x.f == f && f) return &x;
  return nullptr;
}
bool openFails(const char* path) {
  if (!below(path) || !g_plan.open_errno) return false;
  ++g_st.open_failed;
  errno = g_plan.open_errno;
  return true;
}
void opened(int fd) {
  if (fd < 0 || fd >= kMaxFd) return;
  g_fd[fd] = {true, 0, 0, 0};
  ++g_st.opens;
}
// Decides the fate of a transfer of n bytes: <0 error (errno set), else bytes
// that may move.
ssize_t fate(FdState& s, size_t n, bool rd) {
  ++s.calls;
  if (n == 0) return 0;
  if (g_plan.eintr_every && s.calls % g_plan.eintr_every == 0) { ++g_st.eintr; errno = EINTR; return -1; }
  int64_t at = rd ? g_plan.fail_read_at : g_plan.fail_write_at;
  int64_t done = rd ? s.rd : s.wr;
  size_t m = n;
  if (at >= 0) {
    if (done >= at) {
      if (rd) { ++g_st.eio; errno = EIO; } else { ++g_st.enospc; errno = g_plan.write_errno; }
      return -1;
    }
    m = std::min<int64_t>(m, at - done);
  }
  if (g_plan.max_chunk && m > g_plan.max_chunk) m = g_plan.max_chunk;
  if (m < n) ++g_st.short_io;
  return m;
}
ssize_t doRead(int fd, void* b, size_t n, ssize_t (*f)(int, void*, size_t)) {
  FdState& s = g_fd[fd];
  ++g_st.reads;
  ssize_t m = fate(s, n, true);
  if (m < 0) return -1;
  ssize_t k = f(fd, b, m);
  if (k > 0) { s.rd += k; g_st.bytes += k; }
  return k;
}
ssize_t doWrite(int fd, const void* b, size_t n, ssize_t (*f)(int, const void*, size_t)) {
  FdState& s = g_fd[fd];
  ++g_st.writes;
  ssize_t m = fate(s, n, false);
  if (m < 0) return -1;
  bool die = g_plan.crash_write_at >= 0 && s.wr + m >= g_plan.crash_write_at;
  if (die) m = std::max<int64_t>(0, g_plan.crash_write_at - s.wr);
  ssize_t k = f(fd, b, m);
  if (die) _exit(0);
  if (k > 0) { s.wr += k; g_st.bytes += k; }
  return k;
}
}  // namespace

namespace sim {
void ioArm(const IoPlan& p) {
  g_plan = p;
  g_st = {};
  memset(g_fd, 0, sizeof g_fd);
  memset(g_file, 0, sizeof g_file);
  g_armed = true;
}
void ioDisarm() { g_armed = false; }
IoStats ioStats() { return g_st; }
}  // namespace sim

extern "C" {

static FILE* openFile(const char* path, const char* mode, FILE* (*f)(const char*, const char*)) {
  if (openFails(path)) return nullptr;
  FILE* r = f(path, mode);
  if (r && below(path)) {
    opened(::fileno(r));
    for (auto& x : g_file) if (!x.f) { x = {r, false}; break; }
  }
  return r;
}
FILE* fopen(const char* path, const char* mode) { REAL(fopen); return openFile(path, mode, real_fn); }
FILE* fopen64(const char* path, const char* mode) { REAL(fopen64); return openFile(path, mode, real_fn); }

#define OPEN_BODY(name) \
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  static auto real_fn = real<int (*)(const char*, int, ...)>(name); \
  if (openFails(path)) return -1; \
  int r = real_fn(path, flags, m); if (r >= 0 && below(path)) opened(r); return r;
int open(const char* path, int flags, ...) { OPEN_BODY("open") }
int open64(const char* path, int flags, ...) { OPEN_BODY("open64") }
#define OPENAT_BODY(name) \
  mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); } \
  static auto real_fn = real<int (*)(int, const char*, int, ...)>(name); \
  if (openFails(path)) return -1; \
  int r = real_fn(d, path, flags, m); if (r >= 0 && below(path)) opened(r); return r;
int openat(int d, const char* path, int flags, ...) { OPENAT_BODY("openat") }
int openat64(int d, const char* path, int flags, ...) { OPENAT_BODY("openat64") }

ssize_t read(int fd, void* b, size_t n) {
  REAL(read);
  return tracked(fd) ? doRead(fd, b, n, real_fn) : real_fn(fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  REAL(write);
  return tracked(fd) ? doWrite(fd, b, n, real_fn) : real_fn(fd, b, n);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  static auto real_fn = real<ssize_t (*)(int, const struct iovec*, int)>("readv");
  if (!tracked(fd)) return real_fn(fd, v, c);
  for (int i = 0; i < c; ++i) if (v[i].iov_len) { static auto r = real<ssize_t (*)(int, void*, size_t)>("read"); return doRead(fd, v[i].iov_base, v[i].iov_len, r); }
  return 0;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
  static auto real_fn = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (!tracked(fd)) return real_fn(fd, v, c);
  static auto w = real<ssize_t (*)(int, const void*, size_t)>("write");
  ssize_t done = 0;
  for (int i = 0; i < c; ++i) {
    if (!v[i].iov_len) continue;
    ssize_t k = doWrite(fd, v[i].iov_base, v[i].iov_len, w);
    if (k < 0) return done ? done : -1;
    done += k;
    if (static_cast<size_t>(k) < v[i].iov_len) break;
  }
  return done;
}

ssize_t pwrite(int fd, const void* b, size_t n, off_t o) {
  REAL(pwrite);
  if (!tracked(fd)) return real_fn(fd, b, n, o);
  ++g_st.writes;
  ssize_t m = fate(g_fd[fd], n, false);
  if (m < 0) return -1;
  ssize_t k = real_fn(fd, b, m, o);
  if (k > 0) { g_fd[fd].wr += k; g_st.bytes += k; }
  return k;
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
// In-kernel copies: the caller falls back to read and write.
ssize_t copy_file_range(int in, off64_t* a, int out, off64_t* b, size_t n, unsigned f) {
  REAL(copy_file_range);
  if (tracked(in) || tracked(out)) { errno = ENOSYS; return -1; }
  return real_fn(in, a, out, b, n, f);
}
ssize_t sendfile(int out, int in, off_t* o, size_t n) noexcept {
  static auto real_fn = real<ssize_t (*)(int, int, off_t*, size_t)>("sendfile");
  if (tracked(in) || tracked(out)) { errno = ENOSYS; return -1; }
  return real_fn(out, in, o, n);
}

static bool renameFails(const char* a, const char* b) {
  if (!g_plan.rename_errno || (!below(a) && !below(b))) return false;
  ++g_st.rename_failed;
  errno = g_plan.rename_errno;
  return true;
}
int rename(const char* a, const char* b) noexcept { REAL(rename); return renameFails(a, b) ? -1 : real_fn(a, b); }
int link(const char* a, const char* b) noexcept { REAL(link); return renameFails(a, b) ? -1 : real_fn(a, b); }
int renameat(int x, const char* a, int y, const char* b) noexcept { REAL(renameat); return renameFails(a, b) ? -1 : real_fn(x, a, y, b); }
int renameat2(int x, const char* a, int y, const char* b, unsigned f) noexcept { REAL(renameat2); return renameFails(a, b) ? -1 : real_fn(x, a, y, b, f); }
static bool syncFails(int fd) {
  if (!tracked(fd) || !g_plan.fail_sync) return false;
  ++g_st.sync_failed;
  errno = EIO;
  return true;
}
int fsync(int fd) { REAL(fsync); return syncFails(fd) ? -1 : real_fn(fd); }
int fdatasync(int fd) { REAL(fdatasync); return syncFails(fd) ? -1 : real_fn(fd); }

// stdio: glibc's own buffering calls the kernel directly, so the faults are
// applied to what the caller asked the stream for.
static bool stdioRead(FileState* s, FILE* f, size_t want, size_t* allowed) {
  FdState& d = g_fd[::fileno(f) & (kMaxFd - 1)];
  ++g_st.reads;
  *allowed = want;
  if (g_plan.fail_read_at >= 0 && d.rd + static_cast<int64_t>(want) > g_plan.fail_read_at) {
    *allowed = std::max<int64_t>(0, g_plan.fail_read_at - d.rd);
    s->err = true;
    ++g_st.eio;
    errno = EIO;
    return true;
  }
  return false;
}
size_t fread(void* p, size_t size, size_t n, FILE* f) {
  REAL(fread);
  FileState* s = fileOf(f);
  if (!s || !size) return real_fn(p, size, n, f);
  size_t allowed;
  stdioRead(s, f, size * n, &allowed);
  size_t k = real_fn(p, 1, allowed, f);
  g_fd[::fileno(f) & (kMaxFd - 1)].rd += k;
  g_st.bytes += k;
  return k / size;
}
static int getOne(FILE* f, int (*real_fn)(FILE*)) {
  FileState* s = fileOf(f);
  if (!s) return real_fn(f);
  size_t allowed;
  if (stdioRead(s, f, 1, &allowed)) return EOF;
  int c = real_fn(f);
  if (c != EOF) ++g_fd[::fileno(f) & (kMaxFd - 1)].rd;
  return c;
}
int fgetc(FILE* f) { REAL(fgetc); return getOne(f, real_fn); }
#undef getc
int getc(FILE* f) { static auto real_fn = real<int (*)(FILE*)>("getc"); return getOne(f, real_fn); }
#undef ferror
int ferror(FILE* f) noexcept {
  static auto real_fn = real<int (*)(FILE*)>("ferror");
  FileState* s = fileOf(f);
  return (s && s->err) || real_fn(f);
}
// A seek makes the stream's position the number of bytes read so far.
static void seeked(FILE* f) {
  if (fileOf(f)) { long p = ::ftell(f); if (p >= 0) g_fd[::fileno(f) & (kMaxFd - 1)].rd = p; }
}
int fseek(FILE* f, long o, int w) { REAL(fseek); int r = real_fn(f, o, w); if (w != SEEK_END) seeked(f); return r; }
static size_t stdioWrite(FileState* s, FILE* f, size_t want) {
  FdState& d = g_fd[::fileno(f) & (kMaxFd - 1)];
  ++g_st.writes;
  size_t m = want;
  if (g_plan.fail_write_at >= 0 && d.wr + static_cast<int64_t>(want) > g_plan.fail_write_at) {
    m = std::max<int64_t>(0, g_plan.fail_write_at - d.wr);
    s->err = true;
    ++g_st.enospc;
    errno = g_plan.write_errno;
  }
  d.wr += m;
  g_st.bytes += m;
  return m;
}
size_t fwrite(const void* p, size_t size, size_t n, FILE* f) {
  REAL(fwrite);
  FileState* s = fileOf(f);
  if (!s || !size) return real_fn(p, size, n, f);
  return real_fn(p, 1, stdioWrite(s, f, size * n), f) / size;
}
int fputs(const char* t, FILE* f) {
  REAL(fputs);
  FileState* s = fileOf(f);
  if (!s) return real_fn(t, f);
  size_t n = strlen(t), m = stdioWrite(s, f, n);
  static auto w = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  w(t, 1, m, f);
  return m == n ? 1 : EOF;
}
int vfprintf(FILE* f, const char* fmt, va_list ap) {
  REAL(vfprintf);
  FileState* s = fileOf(f);
  if (!s) return real_fn(f, fmt, ap);
  char buf[8192];
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  if (n < 0) return n;
  size_t len = std::min<size_t>(n, sizeof buf - 1), m = stdioWrite(s, f, len);
  static auto w = real<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
  w(buf, 1, m, f);
  return m == len ? n : -1;
}
int fprintf(FILE* f, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int r = vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
static bool closeFails(int fd) {
  bool t = tracked(fd);
  if (t) g_fd[fd].tracked = false;
  if (t && g_plan.fail_close) { ++g_st.close_failed; return true; }
  return false;
}
int fclose(FILE* f) {
  REAL(fclose);
  FileState* s = fileOf(f);
  bool err = false;
  if (s) { err = closeFails(::fileno(f)) || s->err; s->f = nullptr; }
  int r = real_fn(f);
  if (err) { errno = EIO; return EOF; }
  return r;
}
int close(int fd) {
  REAL(close);
  bool err = closeFails(fd);
  int r = real_fn(fd);
  if (err) { errno = EIO; return -1; }
  return r;
}
}  // extern "C"
