#include "sim.h"
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <poll.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <fstream>

extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

namespace sim {
uint64_t allocDisarm();
namespace {

constexpr uint32_t kMaxStream = 1u << 17;
constexpr uint32_t kMaxTrace = 1u << 18;
constexpr uint32_t kMaxCounters = 400;

struct Shm {
  int status;               // 0 running, 1 clean, 2 violation, 3 harness error
  char cls[96];
  char msg[6000];
  uint64_t hash, sig, events;
  int nontrivial;
  double simtime;
  uint32_t ncounters;
  struct { char name[64]; uint64_t n; } counters[kMaxCounters];
  uint32_t nrec[N_STREAMS];
  uint32_t trace_len;
  // what the next run is to do
  int replay, want_trace;
  uint64_t rng[N_STREAMS];
  uint32_t nlist[N_STREAMS];
  uint32_t list[N_STREAMS][kMaxStream];
  // large arrays last
  uint32_t rec[N_STREAMS][kMaxStream];
  char trace[kMaxTrace];
};

Shm* shm = nullptr;
bool g_trace = false;
bool g_isolated = false;

// Choices: generated from a PRNG, or replayed from lists.
size_t g_pos[N_STREAMS];

uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

void mix(uint64_t& h, const char* s, size_t n) {
  for (size_t i = 0; i < n; ++i) { h ^= static_cast<unsigned char>(s[i]); h *= 1099511628211ULL; }
}

void traceText(const char* s, size_t n) {
  if (!g_trace || g_isolated) return;
  if (shm->trace_len + n + 2 >= kMaxTrace) return;
  memcpy(shm->trace + shm->trace_len, s, n);
  shm->trace_len += n;
  shm->trace[shm->trace_len++] = '\n';
}

}  // namespace

uint32_t draw(Stream s, uint32_t n) {
  if (n < 2) return 0;
  if (g_isolated) harnessError("draw in an isolated child");
  uint32_t v;
  if (shm->replay) {
    v = g_pos[s] < shm->nlist[s] ? shm->list[s][g_pos[s]] % n : 0;
    ++g_pos[s];
  } else {
    v = static_cast<uint32_t>((splitmix(shm->rng[s]) >> 11) % n);
  }
  if (shm->nrec[s] < kMaxStream) shm->rec[s][shm->nrec[s]++] = v;
  return v;
}

double real(Stream s, double lo, double hi, uint32_t steps) {
  return lo + (hi - lo) * draw(s, steps + 1) / steps;
}

Params makeParams(size_t k) {
  Params p;
  for (size_t i = 0; i < k; ++i) p.v.push_back(draw(OPS, 1u << 20));
  return p;
}

Params siblingOf(const Params& p) {
  Params q = p;
  q.rewind();
  if (q.v.empty()) return q;
  uint32_t k = 1 + draw(OPS, 2);
  for (uint32_t j = 0; j < k; ++j) {
    // the first ones are used most
    size_t n = draw(OPS, 2) ? q.v.size() : std::min<size_t>(q.v.size(), 8);
    size_t at = draw(OPS, static_cast<uint32_t>(n));
    q.v[at] = draw(OPS, 1u << 20);
  }
  return q;
}

bool tracing() { return g_trace; }
bool inIsolated() { return g_isolated; }

void log(const char* fmt, ...) {
  char buf[2048];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  size_t len = std::min<size_t>(n, sizeof buf - 1);
  if (g_isolated) return;
  mix(shm->hash, buf, len);
  ++shm->events;
  traceText(buf, len);
}

void note(const char* fmt, ...) {
  if (!g_trace || g_isolated) return;
  char buf[4096];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  traceText(buf, std::min<size_t>(n, sizeof buf - 1));
}

void violation(const std::string& cls, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (g_isolated) {
    // reported by the parent as a failed reference
    char buf[1024];
    vsnprintf(buf, sizeof buf, fmt, ap);
    fprintf(stderr, "violation in isolated child: %s %s\n", cls.c_str(), buf);
    _exit(98);
  }
  snprintf(shm->cls, sizeof shm->cls, "%s", cls.c_str());
  vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
  va_end(ap);
  shm->status = 2;
  _exit(10);
}

void harnessError(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  if (shm && !g_isolated) {
    vsnprintf(shm->msg, sizeof shm->msg, fmt, ap);
    snprintf(shm->cls, sizeof shm->cls, "harness");
    shm->status = 3;
  } else {
    vfprintf(stderr, fmt, ap);
    fputc('\n', stderr);
  }
  va_end(ap);
  _exit(97);
}

void count(const char* name, uint64_t n) {
  if (g_isolated) return;
  for (uint32_t i = 0; i < shm->ncounters; ++i) {
    if (strcmp(shm->counters[i].name, name) == 0) { shm->counters[i].n += n; return; }
  }
  if (shm->ncounters == kMaxCounters) return;
  auto& c = shm->counters[shm->ncounters++];
  snprintf(c.name, sizeof c.name, "%s", name);
  c.n = n;
}

void sig(uint64_t x) {
  if (g_isolated) return;
  mix(shm->sig, reinterpret_cast<const char*>(&x), sizeof x);
}
void sig(const std::string& s) { if (!g_isolated) mix(shm->sig, s.data(), s.size()); }
void nontrivial() { if (!g_isolated) shm->nontrivial = 1; }
void simTime(double s) { if (!g_isolated) shm->simtime += s; }

uint64_t hashStr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  mix(h, s.data(), s.size());
  return h;
}

std::string brief(const std::string& s, size_t n) {
  std::string r = s.size() <= n ? s : s.substr(0, n) + "...(" + std::to_string(s.size()) + " bytes)";
  for (auto& c : r) if (c == '\n') c = '|';
  return r;
}

std::string diff(const std::string& want, const std::string& got) {
  size_t i = 0;
  while (i < want.size() && i < got.size() && want[i] == got[i]) ++i;
  size_t b = i > 40 ? i - 40 : 0;
  return "at byte " + std::to_string(i) + " expected <" + brief(want.substr(b), 140) +
    "> got <" + brief(got.substr(std::min(b, got.size())), 140) + ">";
}

std::string scratchName(const char* what) {
  char b[64];
  snprintf(b, sizeof b, "./%s_%010d", what, static_cast<int>(getpid()));
  return b;
}

std::string isolated(const std::function<std::string()>& f) {
  int fd[2];
  if (pipe(fd) != 0) harnessError("pipe: %s", strerror(errno));
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) harnessError("fork: %s", strerror(errno));
  if (pid == 0) {
    g_isolated = true;
    if (onIsolated) onIsolated();
    close(fd[0]);
    std::string r;
    try {
      r = f();
    } catch (const std::exception& e) {
      fprintf(stderr, "isolated: exception %s\n", e.what());
      _exit(96);
    } catch (...) {
      _exit(96);
    }
    size_t off = 0;
    while (off < r.size()) {
      ssize_t k = ::write(fd[1], r.data() + off, r.size() - off);
      if (k <= 0) _exit(95);
      off += k;
    }
    _exit(0);
  }
  close(fd[1]);
  // not into a growing string: how much each read gives is a matter of real time,
  // and what the heap looks like afterwards must not be
  constexpr size_t kMost = 256u << 20;
  static char* buf = static_cast<char*>(mmap(nullptr, kMost, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (buf == MAP_FAILED) harnessError("mmap: %s", strerror(errno));
  size_t got = 0;
  for (;;) {
    if (got == kMost) harnessError("isolated: result too large");
    ssize_t k = ::read(fd[0], buf + got, kMost - got);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) break;
    got += k;
  }
  std::string r(buf, got);
  close(fd[0]);
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
    throw std::runtime_error("isolated execution ended with " +
      (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                       : "exit " + std::to_string(WEXITSTATUS(st))));
  }
  return r;
}

// ---------------------------------------------------------------------------
namespace {

struct Result {
  int status {0};           // 1 clean, 2 violation, 3 harness error
  std::string cls, msg, trace;
  uint64_t hash {0}, sig {0}, events {0};
  bool nontrivial {false};
  double simtime {0};
  std::vector<uint32_t> rec[N_STREAMS];
  std::map<std::string, uint64_t> counters;
};

// The lines of a sanitizer report that name code of this program.
std::string frames(const std::string& err) {
  std::istringstream is(err);
  std::string line, r;
  bool first = true;
  int kept = 0;
  while (std::getline(is, line) && kept < 14) {
    if (first || line.find("/repo/") != std::string::npos || line.find("/verif/props/") != std::string::npos ||
        (line.find("#0 ") != std::string::npos)) { r += line.substr(0, 300) + "\n"; ++kept; }
    first = false;
  }
  return r;
}

int g_errfd = -1;   // memfd that collects the child's stderr
double g_run_wall_limit = 120;

double now() {
  struct timespec t;
  // the raw system call: the harness's own clock, never the simulated one
  syscall(228 /*clock_gettime*/, CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

void resetShm() {
  shm->status = 0; shm->cls[0] = 0; shm->msg[0] = 0;
  shm->hash = shm->sig = 1469598103934665603ULL;
  shm->events = 0; shm->nontrivial = 0; shm->simtime = 0; shm->ncounters = 0;
  for (auto& n : shm->nrec) n = 0;
  shm->trace_len = 0;
}

// An exception nobody catches: say where it came from before dying.
[[noreturn]] void onTerminate() {
  allocDisarm();
  std::string what = "unknown";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } catch (...) {}
  }
  fprintf(stderr, "terminate called, exception: %s\n", what.c_str());
  if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
  abort();
}

// The zygote: a process that forks the runs. It never touches its heap, so every run
// starts from the same memory, whatever ran before and whoever asks.
int g_ask = -1, g_answer = -1;
struct Answer { int st; int killed; int failed; };
Answer oneRun() {
  Answer a {0, 0, 0};
  pid_t pid = fork();
  if (pid < 0) { a.failed = 1; return a; }
  if (pid == 0) {
    close(g_ask); close(g_answer);
    g_trace = shm->want_trace;
    dup2(g_errfd, 2);
    struct rlimit rl {60, 70};
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nocore {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    std::set_terminate(onTerminate);
    propertyRun();
    shm->status = 1;
    _exit(0);
  }
  double t0 = now();
  // Wait with a watchdog for a stuck child.
  for (int spin = 0;; ++spin) {
    pid_t w = waitpid(pid, &a.st, WNOHANG);
    if (w == pid) break;
    if (w < 0 && errno != EINTR) break;
    if (now() - t0 > g_run_wall_limit) { kill(pid, SIGKILL); waitpid(pid, &a.st, 0); a.killed = 1; break; }
    struct timespec ts {0, spin < 50 ? 100000 : 1000000};
    syscall(35 /*nanosleep*/, &ts, nullptr);
  }
  return a;
}
void startZygote(const char* scratch) {
  int ask[2], answer[2];
  if (pipe(ask) != 0 || pipe(answer) != 0) { printf("ERROR pipe\n"); exit(3); }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) { printf("ERROR fork\n"); exit(3); }
  if (pid == 0) {
    close(ask[1]); close(answer[0]);
    if (chdir(scratch) != 0) _exit(0);
    g_ask = ask[0]; g_answer = answer[1];
    for (;;) {
      char c;
      ssize_t k = ::read(g_ask, &c, 1);
      if (k < 0 && errno == EINTR) continue;
      if (k <= 0) _exit(0);
      Answer a = oneRun();
      if (::write(g_answer, &a, sizeof a) != static_cast<ssize_t>(sizeof a)) _exit(0);
    }
  }
  close(ask[0]); close(answer[1]);
  g_ask = ask[1]; g_answer = answer[0];
}

// Executes one run in a fresh fork of the zygote. Choices must be set up.
Result execute(bool trace, bool want_rec) {
  resetShm();
  if (ftruncate(g_errfd, 0) != 0) {}
  lseek(g_errfd, 0, SEEK_SET);
  shm->want_trace = trace;
  Answer a {};
  char c = 0;
  if (::write(g_ask, &c, 1) != 1) { Result r; r.status = 3; r.msg = "zygote gone"; return r; }
  for (;;) {
    ssize_t k = ::read(g_answer, &a, sizeof a);
    if (k < 0 && errno == EINTR) continue;
    if (k != static_cast<ssize_t>(sizeof a)) { Result r; r.status = 3; r.msg = "zygote gone"; return r; }
    break;
  }
  if (a.failed) { Result r; r.status = 3; r.msg = "fork failed"; return r; }
  int st = a.st;
  bool killed = a.killed;
  Result r;
  r.hash = shm->hash; r.sig = shm->sig; r.events = shm->events;
  r.nontrivial = shm->nontrivial; r.simtime = shm->simtime;
  for (uint32_t i = 0; i < shm->ncounters; ++i) r.counters[shm->counters[i].name] += shm->counters[i].n;
  if (want_rec || shm->status != 1)
    for (int s = 0; s < N_STREAMS; ++s) r.rec[s].assign(shm->rec[s], shm->rec[s] + shm->nrec[s]);
  r.trace.assign(shm->trace, shm->trace_len);
  std::string err;
  {
    off_t n = lseek(g_errfd, 0, SEEK_END);
    if (n > 0 && getenv("SIM_STDERR")) { std::string e(n, 0); if (pread(g_errfd, &e[0], n, 0) > 0) ::write(2, e.data(), n); }
    if (n > 0) {
      err.resize(std::min<off_t>(n, 20000));
      if (pread(g_errfd, &err[0], err.size(), 0) < 0) err.clear();
    }
  }
  if (killed) {
    r.status = 3; r.cls = "stuck"; r.msg = "run did not finish within the wall limit";
  } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->status == 1) {
    r.status = 1;
  } else if (shm->status == 2) {
    r.status = 2; r.cls = shm->cls; r.msg = shm->msg;
  } else if (shm->status == 3) {
    r.status = 3; r.cls = shm->cls; r.msg = shm->msg;
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) {
    r.status = 2; r.cls = "hang"; r.msg = "run used more than 60 s of CPU time";
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
    r.status = 3; r.cls = "killed"; r.msg = "run was killed (out of memory?)";
  } else {
    r.status = 2; r.cls = "crash";
    r.msg = WIFSIGNALED(st) ? "process ended by signal " + std::to_string(WTERMSIG(st))
                            : "process ended with exit code " + std::to_string(WEXITSTATUS(st));
    // the sanitizer's or runtime's own words
    for (const char* key : {"ERROR: AddressSanitizer", "terminate called", "Assertion", "runtime error"}) {
      auto p = err.find(key);
      if (p != std::string::npos) {
        r.msg += "\n" + frames(err.substr(p));
        break;
      }
    }
  }
  return r;
}

uint64_t runSeed(uint64_t seed, uint64_t run) {
  uint64_t x = seed * 0x9e3779b97f4a7c15ULL + run * 0xd1342543de82ef95ULL +
      hashStr(kProperty);
  return splitmix(x);
}

void setGenerated(uint64_t seed, uint64_t run) {
  shm->replay = 0;
  uint64_t x = runSeed(seed, run);
  for (int s = 0; s < N_STREAMS; ++s) shm->rng[s] = splitmix(x);
}

void setReplay(const std::vector<uint32_t>* lists) {
  shm->replay = 1;
  for (int s = 0; s < N_STREAMS; ++s) {
    shm->nlist[s] = std::min<size_t>(lists[s].size(), kMaxStream);
    std::copy_n(lists[s].begin(), shm->nlist[s], shm->list[s]);
  }
}

std::string esc(const std::string& s) {
  std::string r;
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r;
}

const char* kStreamName[N_STREAMS] = {"ops", "fault", "sched"};

void writeReplay(const std::string& file, uint64_t seed, uint64_t run, const Result& r,
    const std::vector<uint32_t>* lists, const std::string& how) {
  FILE* f = ::fopen(file.c_str(), "w");
  if (!f) { fprintf(stdout, "ERROR cannot write %s\n", file.c_str()); exit(3); }
  fprintf(f, "# Replay of a violation found by simulation: %s\n", how.c_str());
  fprintf(f, "# Reproduce: python3 /verif/check.py --replay <this file>\n");
  fprintf(f, "property %s\nseed %llu\nrun %llu\n", kProperty,
      (unsigned long long)seed, (unsigned long long)run);
  fprintf(f, "class %s\nhash %016llx\n", r.cls.c_str(), (unsigned long long)r.hash);
  std::string m = r.msg;
  std::istringstream is(m);
  std::string line;
  while (std::getline(is, line)) fprintf(f, "message %s\n", line.c_str());
  for (int s = 0; s < N_STREAMS; ++s) {
    fprintf(f, "stream %s", kStreamName[s]);
    for (auto v : lists[s]) fprintf(f, " %u", v);
    fprintf(f, "\n");
  }
  fprintf(f, "# Execution (operations, faults, context switches as they happened):\n");
  std::istringstream ts(r.trace);
  while (std::getline(ts, line)) fprintf(f, "# %s\n", line.c_str());
  fclose(f);
}

bool sameViolation(const Result& r, const std::string& cls) {
  return r.status == 2 && r.cls == cls;
}

// Generic delta debugging over the three choice lists.
void minimise(std::vector<uint32_t>* lists, const std::string& cls, double budget, int* tries) {
  double t0 = now();
  auto attempt = [&](std::vector<uint32_t>* cand) {
    if (now() - t0 > budget) return false;
    ++*tries;
    setReplay(cand);
    Result r = execute(false, true);
    if (!sameViolation(r, cls)) return false;
    for (int s = 0; s < N_STREAMS; ++s) {
      lists[s] = r.rec[s];  // normalised: what was really used, reduced modulo its range
      while (!lists[s].empty() && lists[s].back() == 0) lists[s].pop_back();
    }
    return true;
  };
  {
    std::vector<uint32_t> c[N_STREAMS] = {lists[0], lists[1], lists[2]};
    attempt(c);
  }
  bool progress = true;
  for (int pass = 0; progress && pass < 6 && now() - t0 < budget; ++pass) {
    progress = false;
    const int order[] = {SCHED, FAULT, OPS};
    for (int s : order) {
      // cut the tail
      for (size_t keep = 0; keep < lists[s].size();) {
        std::vector<uint32_t> c[N_STREAMS] = {lists[0], lists[1], lists[2]};
        c[s].resize(keep);
        if (attempt(c)) { progress = true; break; }
        keep = keep == 0 ? 1 : keep * 2;
        if (now() - t0 > budget) return;
      }
      // delete chunks, then zero chunks
      for (int mode = 0; mode < 2; ++mode) {
        for (size_t len = std::max<size_t>(1, lists[s].size() / 2); len >= 1; len /= 2) {
          for (size_t i = 0; i < lists[s].size();) {
            if (now() - t0 > budget) return;
            std::vector<uint32_t> c[N_STREAMS] = {lists[0], lists[1], lists[2]};
            size_t e = std::min(i + len, c[s].size());
            if (mode == 0) {
              c[s].erase(c[s].begin() + i, c[s].begin() + e);
            } else {
              bool any = false;
              for (size_t k = i; k < e; ++k) { any |= c[s][k] != 0; c[s][k] = 0; }
              if (!any) { i += len; continue; }
            }
            size_t before = lists[s].size();
            if (attempt(c)) { progress = true; if (mode == 1 || lists[s].size() >= before) i += len; }
            else i += len;
          }
          if (len == 1) break;
        }
      }
      // lower values
      for (size_t i = 0; i < lists[s].size(); ++i) {
        if (now() - t0 > budget) return;
        uint32_t v = lists[s][i];
        for (uint32_t t : {v / 2, v - 1}) {
          if (v == 0 || t >= v) continue;
          std::vector<uint32_t> c[N_STREAMS] = {lists[0], lists[1], lists[2]};
          c[s][i] = t;
          if (attempt(c)) { progress = true; break; }
          if (i >= lists[s].size()) break;
        }
      }
    }
  }
}

std::string arg(int argc, char** argv, const char* name, const char* def) {
  for (int i = 2; i + 1 < argc; ++i) if (strcmp(argv[i], name) == 0) return argv[i + 1];
  return def;
}

int cmdWorker(int argc, char** argv) {
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
  uint64_t start = strtoull(arg(argc, argv, "--start", "0").c_str(), 0, 10);
  uint64_t stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), 0, 10);
  uint64_t count = strtoull(arg(argc, argv, "--count", "100").c_str(), 0, 10);
  double deadline = atof(arg(argc, argv, "--deadline", "60").c_str());
  bool hashes = arg(argc, argv, "--hashes", "0") == "1";
  int samples = atoi(arg(argc, argv, "--samples", "0").c_str());
  double t0 = now();
  std::map<std::string, uint64_t> counters;
  std::set<uint64_t> sigs;
  uint64_t runs = 0, nontrivial = 0, events = 0;
  double simtime = 0;
  for (uint64_t k = 0; k < count; ++k) {
    if (now() - t0 > deadline) break;
    uint64_t run = start + k * stride;
    setGenerated(seed, run);
    bool tr = static_cast<int>(k) < samples;
    Result r = execute(tr, false);
    ++runs;
    if (hashes) printf("HASH %llu %016llx %016llx %d %s\n", (unsigned long long)run,
        (unsigned long long)r.hash, (unsigned long long)r.sig, r.status, r.cls.c_str());
    if (r.status == 3) {
      printf("ERROR run %llu: %s %s\n", (unsigned long long)run, r.cls.c_str(), esc(r.msg).c_str());
      fflush(stdout);
      return 3;
    }
    events += r.events;
    simtime += r.simtime;
    for (auto& c : r.counters) counters[c.first] += c.second;
    if (r.nontrivial) { ++nontrivial; sigs.insert(r.sig); }
    if (tr) printf("SAMPLE %llu %s\n", (unsigned long long)run, esc(r.trace.substr(0, 3000)).c_str());
    if (r.status == 2) {
      printf("FOUND %llu %s\t%s\n", (unsigned long long)run, r.cls.c_str(), esc(r.msg.substr(0, 1500)).c_str());
      fflush(stdout);
      if (arg(argc, argv, "--continue", "0") != "1") break;
    }
  }
  printf("STATS %llu %llu %llu %.6f %.3f\n", (unsigned long long)runs, (unsigned long long)nontrivial,
      (unsigned long long)events, simtime, now() - t0);
  for (auto& c : counters) printf("COUNT %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
  for (auto s : sigs) printf("SIG %016llx\n", (unsigned long long)s);
  return 0;
}

int cmdMinimise(int argc, char** argv) {
  uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
  uint64_t run = strtoull(arg(argc, argv, "--run", "0").c_str(), 0, 10);
  double budget = atof(arg(argc, argv, "--budget", "40").c_str());
  std::string out = arg(argc, argv, "--out", "replay.txt");
  setGenerated(seed, run);
  Result a = execute(true, true);
  setGenerated(seed, run);
  Result b = execute(true, true);
  if (a.status != 2 || b.status != 2 || a.cls != b.cls || a.hash != b.hash) {
    printf("NOTREPRODUCED %d %s %016llx / %d %s %016llx\n", a.status, a.cls.c_str(),
        (unsigned long long)a.hash, b.status, b.cls.c_str(), (unsigned long long)b.hash);
    return 4;
  }
  std::vector<uint32_t> lists[N_STREAMS];
  size_t before = 0, after = 0;
  for (int s = 0; s < N_STREAMS; ++s) { lists[s] = a.rec[s]; before += lists[s].size(); }
  int tries = 0;
  minimise(lists, a.cls, budget, &tries);
  setReplay(lists);
  Result r = execute(true, true);
  if (!sameViolation(r, a.cls)) {
    // fall back to the unminimised run
    for (int s = 0; s < N_STREAMS; ++s) lists[s] = a.rec[s];
    setReplay(lists);
    r = execute(true, true);
  }
  for (int s = 0; s < N_STREAMS; ++s) after += lists[s].size();
  if (!sameViolation(r, a.cls)) { printf("NOTREPRODUCED replay\n"); return 4; }
  writeReplay(out, seed, run, r, lists, "minimised from " + std::to_string(before) + " to " +
      std::to_string(after) + " choices in " + std::to_string(tries) + " executions");
  printf("MINIMISED %zu %zu %d %s %016llx\n", before, after, tries, r.cls.c_str(), (unsigned long long)r.hash);
  return 0;
}

int cmdReplay(int argc, char** argv) {
  std::ifstream in(arg(argc, argv, "--file", "replay.txt"));
  if (!in) { printf("ERROR no replay file\n"); return 3; }
  std::vector<uint32_t> lists[N_STREAMS];
  std::string line, cls, hash;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string w;
    is >> w;
    if (w == "class") is >> cls;
    if (w == "hash") is >> hash;
    if (w == "stream") {
      is >> w;
      for (int s = 0; s < N_STREAMS; ++s) if (w == kStreamName[s]) { uint32_t v; while (is >> v) lists[s].push_back(v); }
    }
  }
  setReplay(lists);
  bool tr = arg(argc, argv, "--trace", "1") == "1";
  Result r = execute(tr, false);
  char h[32];
  snprintf(h, sizeof h, "%016llx", (unsigned long long)r.hash);
  if (tr) printf("%s\n", r.trace.c_str());
  if (r.status == 2) {
    printf("REPLAY violation class=%s hash=%s expected_class=%s expected_hash=%s %s\n", r.cls.c_str(), h,
        cls.c_str(), hash.c_str(), (r.cls == cls && h == hash) ? "EXACT" : "DIFFERENT");
    printf("MESSAGE %s\n", r.msg.c_str());
    return (r.cls == cls && h == hash) ? 1 : 5;
  }
  printf("REPLAY %s %s\n", r.status == 1 ? "clean" : "error", r.msg.c_str());
  return r.status == 1 ? 0 : 3;
}

}  // namespace

int mainImpl(int argc, char** argv) {
  // one address layout for every process: replay never depends on it
  if (!getenv("SIM_NOASLR")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  mallopt(M_ARENA_MAX, 1);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  shm = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (shm == MAP_FAILED) { printf("ERROR mmap\n"); return 3; }
  g_errfd = memfd_create("stderr", 0);
  if (argc < 2) { printf("usage: worker|minimise|replay\n"); return 3; }
  setenv("SIM_NOASLR", "1", 1);
  propertyInit();
  const char* scratch = "/tmp";
  for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], "--scratch")) scratch = argv[i + 1];
  startZygote(scratch);
  std::string cmd = argv[1];
  if (cmd == "worker") return cmdWorker(argc, argv);
  if (cmd == "minimise") return cmdMinimise(argc, argv);
  if (cmd == "replay") return cmdReplay(argc, argv);
  printf("ERROR unknown command\n");
  return 3;
}

}  // namespace sim

int main(int argc, char** argv) { return sim::mainImpl(argc, argv); }
__attribute__((weak)) void propertyInit() {}

// Address sanitizer: short stacks.
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:malloc_context_size=2:quarantine_size_mb=16:allocator_may_return_null=0";
}
