// The simulator's thread runtime. The library is compiled with
// -fsanitize=thread but linked with this file instead of libtsan, so each of its
// memory accesses, atomics and function entries calls a function below.
//  - scheduler: one baton; before an access the running thread may be preempted
//    (gaps drawn from the SCHED stream), and it hands over when it blocks.
//  - race detector: vector clocks and a shadow of every 8 bytes accessed while
//    several threads exist; independent of which order the run happened to take.
//  - synchronisation of the simulated threads (mutexes, once, guards, conditions,
//    creation, joining) is done here, so that nobody blocks holding the baton.
#include "threads.h"
#include "sim.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <limits.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/ucontext.h>
#include <time.h>
#include <stdio.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <locale>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>

extern "C" {
extern char __executable_start, etext, end;
extern char __data_start;
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
size_t malloc_usable_size(void*);
extern char __libc_single_threaded;
}

namespace {
constexpr int kT = 16;            // simulated threads alive at once
constexpr uint32_t kMaxSwitches = 400;
typedef uint32_t Clock;

struct Thread {
  int id {0};
  std::atomic<uint32_t> go {0};
  pthread_t os {};
  bool started {false}, done {false}, exit_ok {false}, used {false}, detached {false};
  bool alive {false};             // its OS thread waits for the next job, as in a pool
  const void* wait {nullptr};     // blocked on this object
  bool timed {false}, timed_out {false};
  Clock vc[kT] {};
  std::function<void()> job;
  void* (*fn)(void*) {nullptr};
  void* arg {nullptr};
  void* ret {nullptr};
  std::exception_ptr error;
  int spins {0};
  uint32_t depth {0};             // calls in progress, for reports
  const void* calls[64];
};
Thread g_threads[kT];
__thread Thread* self = nullptr;
__thread volatile int t_rt = 0;            // inside the runtime or the harness
bool g_on = false;                // several threads exist
int64_t g_left = 0;               // accesses until the next preemption
int g_mode = 0;
uint32_t g_switches = 0;
uint32_t g_total_switches = 0;
sim::ThreadStats g_stats {};
uint64_t g_loops = 0;
uint64_t g_acc = 0;

}  // namespace
namespace sim {
Quiet::Quiet() { ++t_rt; }
Quiet::~Quiet() { --t_rt; }
}
namespace {
struct Rt { Rt() { ++t_rt; } ~Rt() { --t_rt; } };

// ---- real functions
#define REAL(ret, name, ...) ret (*real_##name)(__VA_ARGS__)
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_mutex_timedlock, pthread_mutex_t*, const struct timespec*);
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*);
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*);
REAL(int, pthread_once, pthread_once_t*, void (*)());
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*);
REAL(int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
REAL(int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
REAL(int, pthread_cond_signal, pthread_cond_t*);
REAL(int, pthread_cond_broadcast, pthread_cond_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(int, pthread_detach, pthread_t);
REAL(int, sched_yield, void);
bool g_resolved = false;
void resolve() {
  if (g_resolved) return;
  Rt rt;
#define R(n) real_##n = reinterpret_cast<decltype(real_##n)>(dlsym(RTLD_NEXT, #n))
  R(pthread_mutex_lock); R(pthread_mutex_trylock); R(pthread_mutex_unlock); R(pthread_mutex_timedlock);
  R(pthread_rwlock_rdlock); R(pthread_rwlock_wrlock); R(pthread_rwlock_tryrdlock); R(pthread_rwlock_trywrlock); R(pthread_rwlock_unlock);
  R(pthread_once); R(pthread_cond_wait); R(pthread_cond_timedwait); R(pthread_cond_clockwait); R(pthread_cond_signal); R(pthread_cond_broadcast);
  R(pthread_create); R(pthread_join); R(pthread_detach); R(sched_yield);
  g_resolved = true;
}
inline bool fromExe(const void* ra) {
  const char* p = static_cast<const char*>(ra);
  return p >= &__executable_start && p < &etext;
}

// libstdc++'s own wrappers (std::thread, std::condition_variable) stand for the program
bool fromStdlib(const void* ra) {
  Dl_info d;
  return dladdr(ra, &d) && d.dli_fname && strstr(d.dli_fname, "libstdc++");
}
long rawSyscall(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

// ---- symbols for reports
std::string symbol(const void* pc) {
  if (!fromExe(pc)) {
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) return d.dli_sname;
    return "?";
  }
  Rt rt;
  char cmd[300], exe[200];
  ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1);
  if (n <= 0) return "?";
  exe[n] = 0;
  snprintf(cmd, sizeof cmd, "addr2line -e %s -f -C -s 0x%lx 2>/dev/null", exe,
    static_cast<unsigned long>(static_cast<const char*>(pc) - &__executable_start - 1));
  FILE* f = popen(cmd, "r");
  if (!f) return "?";
  char fn[400] = "", at[200] = "";
  if (!fgets(fn, sizeof fn, f)) fn[0] = 0;
  if (!fgets(at, sizeof at, f)) at[0] = 0;
  pclose(f);
  fn[strcspn(fn, "\n")] = 0; at[strcspn(at, "\n")] = 0;
  std::string r = fn;
  if (r.size() > 120) r = r.substr(0, 120) + "...";
  return r + " (" + at + ")";
}

// ---- baton
void futexWait(std::atomic<uint32_t>* a) {
  while (a->load(std::memory_order_acquire) == 0) {
    rawSyscall(SYS_futex, reinterpret_cast<long>(a), FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  }
  a->store(0, std::memory_order_relaxed);
}
void wake(Thread* t) {
  t->go.store(1, std::memory_order_release);
  rawSyscall(SYS_futex, reinterpret_cast<long>(&t->go), FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
void newGap() {
  if (g_switches >= kMaxSwitches || !g_on) { g_left = INT64_MAX; return; }
  uint32_t k = sim::draw(sim::SCHED, 20);
  if (k == 0) { g_left = INT64_MAX; return; }
  if (g_mode) k = 1 + k % 7;
  g_left = 1 + sim::draw(sim::SCHED, 1u << k);
}
int runnable(Thread** out, Thread* except) {
  int n = 0;
  for (auto& t : g_threads) if (t.used && t.started && !t.done && !t.wait && &t != except) out[n++] = &t;
  return n;
}
// Hands the baton to another thread (a drawn one); me must not be runnable or be
// preempted. Returns when me has the baton again.
void handOver(Thread* me, bool me_too) {
  Rt rt;
  Thread* c[kT + 1];
  int n = runnable(c, me_too ? nullptr : me);
  if (n == 0) {
    // a timed wait ends when nothing else can happen
    for (auto& t : g_threads) if (t.used && t.started && !t.done && t.wait && t.timed) { t.timed_out = true; t.wait = nullptr; c[n++] = &t; break; }
  }
  if (n == 0) sim::violation("deadlock", "every thread is blocked");
  Thread* to = c[n > 1 ? sim::draw(sim::SCHED, n) : 0];
  ++g_switches; ++g_total_switches; ++g_stats.switches;
  g_stats.interleaving = (g_stats.interleaving ^ (g_acc * 16 + to->id)) * 1099511628211ULL;
  newGap();
  if (to == me) return;
  bool stay = !me->done || (!me->alive && !me->exit_ok);
  wake(to);
  if (stay) futexWait(&me->go);
}
void block(Thread* me, const void* on, bool timed = false) {
  ++g_stats.blocked;
  me->wait = on; me->timed = timed; me->timed_out = false;
  handOver(me, false);
}
void unblock(const void* on) {
  for (auto& t : g_threads) if (t.used && t.wait == on) t.wait = nullptr;
}
void __attribute__((noinline)) preempt(Thread* me) {
  Thread* c[kT + 1];
  if (runnable(c, me) == 0) { g_left = INT64_MAX; if (g_switches < kMaxSwitches) g_left = 100000; return; }
  handOver(me, true);
}

// ---- happens-before
void join(Clock* a, const Clock* b) { for (int i = 0; i < kT; ++i) if (b[i] > a[i]) a[i] = b[i]; }
struct SyncVar { Clock vc[kT]; SyncVar* next; };
SyncVar* g_free_sync = nullptr;

struct Cell {
  Clock wclk; uint32_t wpc;
  Clock rclk[kT];
  uint32_t rpc;
  uint8_t wtid, wmask, rmask[kT];
};
struct Page { Cell c[512]; SyncVar* s[512]; };
constexpr size_t kTop = 1ull << 18, kLeaf = 1ull << 17;  // 47-bit addresses, 4 KB pages
Page*** g_top = nullptr;
void* zmap(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) sim::harnessError("no memory for the shadow");
  return p;
}
inline Page* pageOf(uintptr_t a, bool make) {
  uintptr_t n = a >> 12, top = n >> 17, leaf = n & (kLeaf - 1);
  if (top >= kTop) return nullptr;
  if (!g_top) { if (!make) return nullptr; g_top = static_cast<Page***>(zmap(kTop * sizeof(void*))); }
  Page**& l = g_top[top];
  if (!l) { if (!make) return nullptr; l = static_cast<Page**>(zmap(kLeaf * sizeof(void*))); }
  Page*& p = l[leaf];
  if (!p) { if (!make) return nullptr; p = static_cast<Page*>(zmap(sizeof(Page))); }
  return p;
}
SyncVar* syncVar(const void* p, bool make) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  Page* pg = pageOf(a, make);
  if (!pg) return nullptr;
  SyncVar*& v = pg->s[(a & 4095) >> 3];
  if (!v && make) {
    if (!g_free_sync) {
      constexpr size_t k = 1024;
      SyncVar* b = static_cast<SyncVar*>(zmap(k * sizeof(SyncVar)));
      for (size_t i = 0; i + 1 < k; ++i) b[i].next = &b[i + 1];
      g_free_sync = b;
    }
    v = g_free_sync;
    g_free_sync = v->next;
    memset(v, 0, sizeof *v);
  }
  return v;
}
void acquire(Thread* t, const void* p) { if (auto* v = syncVar(p, false)) join(t->vc, v->vc); }
void release(Thread* t, const void* p) {
  if (auto* v = syncVar(p, true)) join(v->vc, t->vc);
  ++t->vc[t->id];
}
void forget(const void* p, size_t n) {
  if (!g_top || !n) return;
  Rt rt;
  uintptr_t a = reinterpret_cast<uintptr_t>(p) & ~7ull, e = reinterpret_cast<uintptr_t>(p) + n;
  while (a < e) {
    uintptr_t pe = (a | 4095) + 1;
    uintptr_t stop = pe < e ? pe : e;
    if (Page* pg = pageOf(a, false)) {
      size_t i = (a & 4095) >> 3, k = (stop - a + 7) >> 3;
      memset(&pg->c[i], 0, k * sizeof(Cell));
      for (size_t j = i; j < i + k; ++j) if (SyncVar* v = pg->s[j]) { v->next = g_free_sync; g_free_sync = v; pg->s[j] = nullptr; }
    }
    a = stop;
  }
}
const char* kind(bool w) { return w ? "write" : "read"; }
std::string place(const void* p) {
  const char* c = static_cast<const char*>(p);
  if (c >= &__data_start && c < &end) return "static data";
  if (sim::inArena(p)) return "a shared input";
  return "memory";
}
// who called the code at hand
std::string callers(Thread* t) {
  std::string r;
  int shown = 0;
  for (uint32_t d = t->depth; d > 0 && t->depth - d < 60 && shown < 3; --d) {
    std::string f = symbol(t->calls[(d - 1) & 63]);
    if (f.find("std::") == 0 || f.find("__gnu_cxx::") == 0 || f.find("void std::") == 0 || f.find("operator") == 0) continue;
    r += (shown++ ? " <- " : "") + f;
  }
  return r;
}
[[noreturn]] void __attribute__((noinline)) race(Thread* t, const void* p, bool w, const void* pc, int other, bool ow, uint32_t opc) {
  ++t_rt;
  g_on = false;
  std::string a = symbol(pc), b = symbol(&__executable_start + opc);
  sim::violation("race", "unordered %s by thread %d in %s and %s by thread %d in %s, of %s; the former called by %s", kind(w), t->id, a.c_str(), kind(ow), other, b.c_str(), place(p).c_str(), callers(t).c_str());
}
inline void check1(Thread* t, uintptr_t a, uint8_t mask, bool w, const void* pc) {
  Page* pg = pageOf(a, true);
  if (!pg) return;
  Cell& c = pg->c[(a & 4095) >> 3];
  int me = t->id;
  uint32_t off = static_cast<uint32_t>(static_cast<const char*>(pc) - &__executable_start);
  if ((c.wmask & mask) && c.wtid != me && c.wclk > t->vc[c.wtid]) race(t, reinterpret_cast<void*>(a), w, pc, c.wtid, true, c.wpc);
  if (w) {
    for (int i = 0; i < kT; ++i)
      if (i != me && (c.rmask[i] & mask) && c.rclk[i] > t->vc[i]) race(t, reinterpret_cast<void*>(a), w, pc, i, false, c.rpc);
    if (c.wmask && c.wtid == me && c.wclk == t->vc[me]) c.wmask |= mask;
    else c.wmask = mask;
    c.wtid = me; c.wclk = t->vc[me]; c.wpc = off;
  } else {
    if (c.rclk[me] == t->vc[me]) c.rmask[me] |= mask; else c.rmask[me] = mask;
    c.rclk[me] = t->vc[me]; c.rpc = off;
  }
}
inline bool foreign(Thread* t, uintptr_t a) {
  Page* pg = pageOf(a, false);
  if (!pg) return false;
  Cell& c = pg->c[(a & 4095) >> 3];
  if (c.wmask && c.wtid != t->id) return true;
  for (int i = 0; i < kT; ++i) if (i != t->id && c.rmask[i]) return true;
  return false;
}
void check(Thread* t, const void* p, size_t n, bool w, const void* pc) {
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  while (n) {
    size_t o = a & 7, k = 8 - o < n ? 8 - o : n;
    check1(t, a & ~7ull, static_cast<uint8_t>(((1u << k) - 1) << o), w, pc);
    a += k; n -= k;
  }
}
inline bool counts(Thread* t, const void* p) {
  switch (g_mode) {
    case 1: return foreign(t, reinterpret_cast<uintptr_t>(p));
    case 2: { const char* c = static_cast<const char*>(p); return c >= &__data_start && c < &end; }
    default: return true;
  }
}
// Where the C++ library itself caches without locks (the tables of its character
// facets, which any use of <regex> or streams fills): not the program's memory.
const char* g_lib_at[2];
const char* g_lib_end[2];
void findLibraryCaches() {
  if (g_lib_at[0]) return;
  Rt rt;
  auto& c = std::use_facet<std::ctype<char>>(std::locale::classic());
  auto& w = std::use_facet<std::ctype<wchar_t>>(std::locale::classic());
  g_lib_at[0] = reinterpret_cast<const char*>(&c); g_lib_end[0] = g_lib_at[0] + sizeof c;
  g_lib_at[1] = reinterpret_cast<const char*>(&w); g_lib_end[1] = g_lib_at[1] + sizeof w;
}
inline bool libraryCache(const void* p) {
  const char* c = static_cast<const char*>(p);
  return (c >= g_lib_at[0] && c < g_lib_end[0]) || (c >= g_lib_at[1] && c < g_lib_end[1]);
}
inline void access(const void* p, size_t n, bool w, const void* pc) {
  if (__builtin_expect(!g_on, 1)) return;
  Thread* t = self;
  if (!t || t_rt || libraryCache(p)) return;
  ++g_acc;
  t->spins = 0;
  if (counts(t, p) && --g_left <= 0) preempt(t);
  ++t_rt;
  check(t, p, n, w, pc);
  --t_rt;
}

// ---- memory of shared inputs
constexpr size_t kArena = 64u << 20;
char* g_arena = nullptr;          // what everybody uses
char* g_alias = nullptr;          // the same memory, always writable
size_t g_arena_used = 0;
__thread int t_arena = 0;
bool g_protected = false;
const char* g_protected_what = "";
bool g_stepping = false;

void* arenaGet(size_t n, size_t align) {
  size_t at = (g_arena_used + 16 + align - 1) & ~(align - 1);
  if (at + n > kArena) sim::harnessError("arena full");
  *reinterpret_cast<size_t*>(g_arena + at - 8) = n;
  g_arena_used = at + n;
  return g_arena + at;
}
inline bool arenaHas(const void* p) {
  const char* c = static_cast<const char*>(p);
  return g_arena && c >= g_arena && c < g_arena + kArena;
}
inline void* alias(const volatile void* p) {
  const char* c = const_cast<const char*>(static_cast<const volatile char*>(p));
  return g_protected && arenaHas(c) ? g_alias + (c - g_arena) : const_cast<char*>(c);
}
void onSegv(int, siginfo_t* si, void* ctx) {
  ucontext_t* u = static_cast<ucontext_t*>(ctx);
  ++t_rt;
  bool write = (u->uc_mcontext.gregs[REG_ERR] & 2) != 0;
  if (g_protected && arenaHas(si->si_addr) && write) {
    const unsigned char* ip = reinterpret_cast<const unsigned char*>(u->uc_mcontext.gregs[REG_RIP]);
    bool locked = false;
    for (int i = 0; i < 4 && !locked; ++i) {
      unsigned char b = ip[i];
      if (b == 0xF0) locked = true;
      else if (b == 0x86 || b == 0x87) { locked = true; }
      else if (b != 0x66 && b != 0xF2 && b != 0xF3 && b != 0x2E && b != 0x3E && (b & 0xF0) != 0x40) break;
    }
    if (locked) {
      // an atomic update (reference count): let this one instruction through
      mprotect(g_arena, kArena, PROT_READ | PROT_WRITE);
      u->uc_mcontext.gregs[REG_EFL] |= 0x100;
      g_stepping = true;
      --t_rt;
      return;
    }
    g_on = false;
    mprotect(g_arena, kArena, PROT_READ | PROT_WRITE);
    g_protected = false;
    void* bt[40];
    int n = backtrace(bt, 40);
    std::string where;
    int shown = 0;
    for (int i = 2; i < n && shown < 4; ++i) {
      if (!fromExe(bt[i])) { if (!shown && where.empty()) { Dl_info d; if (dladdr(bt[i], &d) && d.dli_sname) where = std::string(d.dli_sname) + " called by "; } continue; }
      where += (shown ? " <- " : "") + symbol(bt[i]);
      ++shown;
    }
    sim::violation("input-written", "write to %s while it is only to be read, in %s", g_protected_what, where.c_str());
  }
  // any other fault is a crash of the run
  signal(SIGSEGV, SIG_DFL);
  g_on = false;
  fprintf(stderr, "terminate called, SIGSEGV at %p\n", si->si_addr);
  void* bt[40];
  int n = backtrace(bt, 40);
  for (int i = 2, shown = 0; i < n && shown < 5; ++i) if (fromExe(bt[i])) { fprintf(stderr, "    #%d in %s /repo/\n", shown, symbol(bt[i]).c_str()); ++shown; }
  raise(SIGSEGV);
}
void onTrap(int, siginfo_t*, void* ctx) {
  ucontext_t* u = static_cast<ucontext_t*>(ctx);
  if (g_stepping) {
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100ll;
    g_stepping = false;
    if (g_protected) mprotect(g_arena, kArena, PROT_READ);
    return;
  }
  signal(SIGTRAP, SIG_DFL);
  raise(SIGTRAP);
}

Thread* newThread(bool pooled) {
  for (int pass = 0; pass < 2; ++pass)
  for (auto& t : g_threads) if (!t.used && (pooled ? t.alive || pass : !t.alive)) {
    Clock keep = t.vc[t.id];
    int id = static_cast<int>(&t - g_threads);
    t.id = id;
    if (!t.alive) t.go = 0;
    t.started = t.done = t.exit_ok = t.detached = false; t.used = true;
    t.wait = nullptr; t.timed = t.timed_out = false; t.job = nullptr; t.fn = nullptr; t.arg = t.ret = nullptr; t.error = nullptr; t.spins = 0; t.depth = 0;
    if (!t.alive) memset(t.vc, 0, sizeof t.vc);
    t.vc[id] = keep + 1;
    ++g_stats.threads;
    return &t;
  }
  sim::harnessError("too many simulated threads");
}
Thread* adoptMain() {
  findLibraryCaches();
  if (!self) {
    Thread* t = newThread(false);
    t->started = true;
    t->os = pthread_self();
    self = t;
  }
  return self;
}
void* trampoline(void* a) {
  Thread* t = static_cast<Thread*>(a);
  ++t_rt;
  self = t;
  while (t->alive) {
    futexWait(&t->go);
    int rt0 = t_rt;
    t_rt = 0;
    try { t->job(); } catch (...) { t->error = std::current_exception(); }
    t_rt = rt0;
    ++t->vc[t->id];
    t->done = true;
    unblock(t);
    handOver(t, false);
  }
  futexWait(&t->go);
  --t_rt;
  t->ret = t->fn(t->arg);
  ++t_rt;
  void* ret = t->ret;
  ++t->vc[t->id];
  t->done = true;
  unblock(t);
  if (t->detached) t->exit_ok = true;
  // give the baton away; come back only to leave
  handOver(t, false);
  // the slot (and its stack) of a detached thread is not used again
  return ret;
}
constexpr size_t kStack = 8u << 20;
char* g_stacks[kT];
Thread* start(Thread* me, std::function<void()> job, void* (*fn)(void*), void* arg, const pthread_attr_t* attr) {
  Rt rt;
  Thread* t = newThread(!fn);
  t->job = std::move(job); t->fn = fn; t->arg = arg;
  join(t->vc, me->vc);
  t->vc[t->id] += 1;
  ++me->vc[me->id];
  // a stack of its own for each slot: what an earlier thread did there is past
  if (t->alive) { forget(g_stacks[t->id], kStack); t->started = true; return t; }
  t->alive = !fn;
  if (!g_stacks[t->id]) g_stacks[t->id] = static_cast<char*>(zmap(kStack));
  forget(g_stacks[t->id], kStack);
  pthread_attr_t own;
  pthread_attr_init(&own);
  (void)attr;
  pthread_attr_setstack(&own, g_stacks[t->id], kStack);
  int rc = real_pthread_create(&t->os, &own, trampoline, t);
  pthread_attr_destroy(&own);
  if (rc != 0) sim::harnessError("pthread_create failed");
  t->started = true;
  return t;
}
std::exception_ptr finish(Thread* me, Thread* t, void** ret) {
  Rt rt;
  while (!t->done) block(me, t);
  join(me->vc, t->vc);
  if (!t->alive) {
    t->exit_ok = true;
    wake(t);
    real_pthread_join(t->os, ret);
    if (ret) *ret = t->ret;
  }
  std::exception_ptr e = t->error;
  t->error = nullptr;
  t->job = nullptr;
  t->used = false;
  return e;
}
}  // namespace

extern "C" {
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}
// A reference execution has a heap of another kind: no address is ever used twice,
// and new memory holds other bytes.
bool g_no_reuse = false;
size_t g_kept = 0;
unsigned char g_fill = 0xA7;
constexpr size_t kMostKept = 1u << 30, kFill = 2048;
inline void* filled(void* p, size_t n) {
  if (p) __real_memset(p, g_fill, n < kFill ? n : kFill);
  return p;
}
inline bool keep(void* p) {
  if (!g_no_reuse || !p || g_kept > kMostKept) return false;
  g_kept += malloc_usable_size(p);
  return true;
}

// The run itself may have a heap that gives freed blocks of the same size out again
// as soon as it can (1), or one of the newest few of them (2).
constexpr size_t kClasses = 64, kListed = 1u << 14;
int g_recycle = 0;
uint64_t g_recycle_rng = 0;
void** g_freed = nullptr;
size_t g_nfreed[kClasses];
inline size_t usableFor(size_t n) { size_t u = ((n + 8 + 15) & ~static_cast<size_t>(15)); return (u < 32 ? 32 : u) - 8; }
inline void* recycled(size_t n) {
  size_t u = usableFor(n), k = u >> 4;
  if (k >= kClasses || !g_nfreed[k]) return nullptr;
  size_t last = --g_nfreed[k];
  void** l = g_freed + k * kListed;
  if (g_recycle == 2 && last) {
    g_recycle_rng = g_recycle_rng * 6364136223846793005ULL + 1442695040888963407ULL;
    size_t pick = last - (g_recycle_rng >> 33) % (last < 4 ? last + 1 : 4);
    void* t = l[pick]; l[pick] = l[last]; l[last] = t;
  }
  return l[last];
}
inline bool recycle(void* p) {
  if (!p) return false;
  size_t k = malloc_usable_size(p) >> 4;
  if (k >= kClasses || g_nfreed[k] == kListed) return false;
  g_freed[k * kListed + g_nfreed[k]++] = p;
  return true;
}

namespace sim {
void recycleHeap(int mode, uint64_t seed) {
  if (!g_freed) g_freed = static_cast<void**>(zmap(kClasses * kListed * sizeof(void*)));
  g_recycle = mode; g_recycle_rng = seed;
}
void onIsolated() { g_no_reuse = true; g_recycle = 0; g_fill = 0x3C; }
void runThreads(std::vector<std::function<void()>> jobs) {
  resolve();
  Rt rt;
  Thread* me = adoptMain();
  bool outer = !g_on;
  int rt_before = t_rt;
  if (outer) {
    g_switches = 0;
    g_mode = draw(SCHED, 4);
    if (g_mode == 3) g_mode = 0;
  }
  __libc_single_threaded = 0;
  std::vector<Thread*> ts;
  g_on = true;
  if (outer) newGap();
  for (auto& j : jobs) ts.push_back(start(me, std::move(j), nullptr, nullptr, nullptr));
  std::exception_ptr e;
  for (auto* t : ts) { auto x = finish(me, t, nullptr); if (x && !e) e = x; }
  if (outer) g_on = false;
  t_rt = rt_before;
  g_stats.accesses = g_acc;
  if (e) std::rethrow_exception(e);
}
ThreadStats threadStats() { g_stats.accesses = g_acc; return g_stats; }
void touch(const void* p, size_t n, bool write) { access(p, n, write, __builtin_return_address(0)); }
uint64_t parallelLoops() { return g_loops; }
void parallelChunks(size_t n, const std::function<void(size_t, size_t)>& body) {
  Rt rt;
  ++g_loops;
  if (n == 0) return;
  // a reference execution: one chunk, no other threads
  if (inIsolated()) { int rt0 = t_rt; t_rt = 0; body(0, n); t_rt = rt0; return; }
  // cut points and threads drawn; 0 draws mean one chunk on one thread
  size_t most = n < 8 ? n : 8;
  size_t cuts = draw(SCHED, static_cast<uint32_t>(most));
  std::vector<size_t> at {0, n};
  for (size_t i = 0; i < cuts; ++i) at.push_back(draw(SCHED, static_cast<uint32_t>(n)));
  std::sort(at.begin(), at.end());
  std::vector<std::pair<size_t, size_t>> chunks;
  for (size_t i = 0; i + 1 < at.size(); ++i) if (at[i] < at[i + 1]) chunks.emplace_back(at[i], at[i + 1]);
  for (size_t i = chunks.size(); i > 1; --i) std::swap(chunks[i - 1], chunks[draw(SCHED, static_cast<uint32_t>(i))]);
  size_t room = 0;
  for (auto& t : g_threads) room += !t.used;
  size_t k = 1 + draw(SCHED, static_cast<uint32_t>(chunks.size() < 4 ? chunks.size() : 4));
  if (k + 2 > room) k = 1;
  // chunk j goes to thread j % k; the caller works too, as a pool's caller does
  std::vector<std::function<void()>> jobs;
  for (size_t t = 0; t < k; ++t)
    jobs.push_back([&chunks, &body, t, k] { for (size_t j = t; j < chunks.size(); j += k) body(chunks[j].first, chunks[j].second); });
  runThreads(std::move(jobs));
}
void parallelPair(const std::function<void()>& a, const std::function<void()>& b) {
  Rt rt;
  ++g_loops;
  if (inIsolated()) { a(); b(); return; }
  runThreads({a, b});
}
void arenaOn() {
  if (!g_arena) {
    int fd = memfd_create("arena", 0);
    if (fd < 0 || ftruncate(fd, kArena) != 0) harnessError("memfd");
    g_alias = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0));
    g_arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, fd, 0));
    if (g_alias == MAP_FAILED || g_arena == MAP_FAILED) harnessError("arena");
    close(fd);
    void* bt[2];
    backtrace(bt, 2);  // loads what it needs now
    static char stack[1 << 16];
    stack_t ss {};
    ss.ss_sp = stack; ss.ss_size = sizeof stack;
    struct sigaction sa {};
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sa.sa_sigaction = onSegv;
    sigaction(SIGSEGV, &sa, nullptr);
    sa.sa_sigaction = onTrap;
    sigaction(SIGTRAP, &sa, nullptr);
  }
  ++t_arena;
}
void arenaOff() { --t_arena; }
// (atomic reference counts from here on, also where there is one thread only)
void arenaProtect(const char* what) { __libc_single_threaded = 0; g_protected_what = what; g_protected = true; mprotect(g_arena, kArena, PROT_READ); }
void arenaRelease() { g_protected = false; mprotect(g_arena, kArena, PROT_READ | PROT_WRITE); }
bool inArena(const void* p) { return arenaHas(p); }
uint64_t arenaBytes() { return g_arena_used; }
}  // namespace sim

// ---------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
// ---- memory
void* malloc(size_t n) {
  if (__builtin_expect(t_arena && !g_protected, 0)) return arenaGet(n, 16);
  void* p = g_recycle ? recycled(n) : nullptr;
  if (!p) p = __libc_malloc(n);
  filled(p, n);
  if (g_top && p) forget(p, n);
  return p;
}
void free(void* p) {
  if (__builtin_expect(arenaHas(p), 0)) return;
  if (__builtin_expect(g_no_reuse, 0) && keep(p)) return;
  if (g_recycle && recycle(p)) return;
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (__builtin_expect(t_arena && !g_protected, 0)) { void* p = arenaGet(a * b, 16); memset(p, 0, a * b); return p; }
  void* p = __libc_calloc(a, b);
  if (g_top && p) forget(p, a * b);
  return p;
}
void* realloc(void* p, size_t n) {
  bool from = arenaHas(p), to = t_arena && !g_protected;
  if (__builtin_expect(from || to, 0)) {
    if (!p) return malloc(n);
    size_t old = from ? *reinterpret_cast<size_t*>(static_cast<char*>(p) - 8) : malloc_usable_size(p);
    void* q = malloc(n);
    if (q) { memcpy(q, p, old < n ? old : n); free(p); }
    return q;
  }
  if (g_no_reuse) {
    void* q = malloc(n);
    if (q && p) { size_t old = malloc_usable_size(p); __real_memcpy(q, p, old < n ? old : n); free(p); }
    return q;
  }
  void* q = __libc_realloc(p, n);
  if (g_top && q) forget(q, n);
  return q;
}
void* memalign(size_t a, size_t n) {
  if (__builtin_expect(t_arena && !g_protected, 0)) return arenaGet(n, a < 16 ? 16 : a);
  void* p = filled(__libc_memalign(a, n), n);
  if (g_top && p) forget(p, n);
  return p;
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }

// ---- instrumentation
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (Thread* t = self) { t->calls[t->depth & 63] = pc; ++t->depth; } }
void __tsan_func_exit() { if (Thread* t = self) if (t->depth) --t->depth; }
#define RW(n) \
  void __tsan_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(n) \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); else access(p, 8, false, PC); }

// memory functions called from the program itself (linker option --wrap)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (g_on && n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (g_on && n) { access(s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (g_on && n) access(d, n, true, PC); return __real_memset(d, c, n); }
}

// ---- atomics: always acquire and release
namespace {
struct Atomic {
  Thread* t;
  Atomic(const volatile void* p, bool load, const void*) {
    t = g_on && !t_rt ? self : nullptr;
    if (!t) return;
    ++g_stats.atomics;
    ++g_acc;
    // someone spinning on an atomic lets others run
    if (--g_left <= 0 || (load && ++t->spins > 500)) { t->spins = 0; preempt(t); }
    ++t_rt;
    const void* q = const_cast<const void*>(p);
    acquire(t, q);
    release(t, q);
  }
  ~Atomic() { if (t) --t_rt; }
};
}
#define ATOMIC(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int) { Atomic g(a, true, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int) { Atomic g(a, false, PC); __atomic_store_n((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { Atomic g(a, true, PC); return __atomic_exchange_n((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_add((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_sub((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_and((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_or((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_xor((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { Atomic g(a, false, PC); return __atomic_fetch_nand((volatile T*)alias(a), v, __ATOMIC_SEQ_CST); } \
extern "C" bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { Atomic g(a, true, PC); return __atomic_compare_exchange_n((volatile T*)alias(a), c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { Atomic g(a, true, PC); return __atomic_compare_exchange_n((volatile T*)alias(a), c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { Atomic g(a, true, PC); __atomic_compare_exchange_n((volatile T*)alias(a), &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---- synchronisation. Calls from shared libraries are scheduled too, but only
// those of the program itself order its memory accesses.
namespace {
inline Thread* current() { return g_on && self && self->used ? self : nullptr; }
struct Hb {
  Thread* t; const void* p; bool own;
  Hb(Thread* t, const void* p, const void* pc, bool lib = false) : t(t), p(p), own(fromExe(pc) || (lib && fromStdlib(pc))) {}
  void acq() { if (own) acquire(t, p); }
  void rel() { if (own) release(t, p); }
};
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_mutex_lock(m);
  Hb hb(t, m, PC);
  Rt rt;
  int r;
  while ((r = real_pthread_mutex_trylock(m)) == EBUSY) block(t, m);
  if (r == 0) hb.acq();
  return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_mutex_trylock(m);
  Hb hb(t, m, PC);
  Rt rt;
  int r = real_pthread_mutex_trylock(m);
  if (r == 0) hb.acq(); else if (++t->spins > 100) { t->spins = 0; preempt(t); }
  return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_mutex_timedlock(m, ts);
  Hb hb(t, m, PC);
  Rt rt;
  int r;
  while ((r = real_pthread_mutex_trylock(m)) == EBUSY) { block(t, m, true); if (t->timed_out) return ETIMEDOUT; }
  if (r == 0) hb.acq();
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_mutex_unlock(m);
  Hb hb(t, m, PC);
  Rt rt;
  hb.rel();
  int r = real_pthread_mutex_unlock(m);
  unblock(m);
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_rwlock_rdlock(m);
  Hb hb(t, m, PC);
  Rt rt;
  int r;
  while ((r = real_pthread_rwlock_tryrdlock(m)) == EBUSY) block(t, m);
  if (r == 0) hb.acq();
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_rwlock_wrlock(m);
  Hb hb(t, m, PC);
  Rt rt;
  int r;
  while ((r = real_pthread_rwlock_trywrlock(m)) == EBUSY) block(t, m);
  if (r == 0) hb.acq();
  return r;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { resolve(); Thread* t = current(); int r = real_pthread_rwlock_tryrdlock(m); if (t && r == 0) { Hb hb(t, m, PC); Rt rt; hb.acq(); } return r; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { resolve(); Thread* t = current(); int r = real_pthread_rwlock_trywrlock(m); if (t && r == 0) { Hb hb(t, m, PC); Rt rt; hb.acq(); } return r; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_rwlock_unlock(m);
  Hb hb(t, m, PC);
  Rt rt;
  hb.rel();
  int r = real_pthread_rwlock_unlock(m);
  unblock(m);
  return r;
}
int pthread_once(pthread_once_t* o, void (*f)()) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_once(o, f);
  Hb hb(t, o, PC);
  static std::map<pthread_once_t*, Thread*>* running = nullptr;
  {
    Rt rt;
    if (!running) running = new std::map<pthread_once_t*, Thread*>;
    while (running->count(o)) block(t, o);
    if (__atomic_load_n(o, __ATOMIC_ACQUIRE) == 2) { hb.acq(); return 0; }
    (*running)[o] = t;
  }
  int rt0 = t_rt;
  try { f(); } catch (...) {
    t_rt = rt0;
    Rt rt;
    running->erase(o);
    unblock(o);
    throw;
  }
  Rt rt;
  __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  running->erase(o);
  hb.rel();
  unblock(o);
  return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  resolve();
  Thread* t = current();
  if (!t) return real_pthread_cond_wait(c, m);
  Hb hb(t, m, PC, true);
  Rt rt;
  hb.rel();
  real_pthread_mutex_unlock(m);
  unblock(m);
  block(t, c);
  while (real_pthread_mutex_trylock(m) == EBUSY) block(t, m);
  hb.acq();
  return 0;
}
static int timedwait(Thread* t, pthread_cond_t* c, pthread_mutex_t* m, const void* pc) {
  Hb hb(t, m, pc, true);
  Rt rt;
  hb.rel();
  real_pthread_mutex_unlock(m);
  unblock(m);
  block(t, c, true);
  bool out = t->timed_out;
  while (real_pthread_mutex_trylock(m) == EBUSY) block(t, m);
  hb.acq();
  return out ? ETIMEDOUT : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  resolve();
  Thread* t = current();
  return t ? timedwait(t, c, m, PC) : real_pthread_cond_timedwait(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  resolve();
  Thread* t = current();
  return t ? timedwait(t, c, m, PC) : real_pthread_cond_clockwait(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  resolve();
  if (!current()) return real_pthread_cond_signal(c);
  for (auto& t : g_threads) if (t.used && t.wait == c) { t.wait = nullptr; break; }
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  resolve();
  if (!current()) return real_pthread_cond_broadcast(c);
  unblock(c);
  return 0;
}
int pthread_create(pthread_t* o, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  resolve();
  // a thread of the program under simulation is a simulated one
  if (!current() && !fromExe(PC) && !fromStdlib(PC)) return real_pthread_create(o, a, f, arg);
  Thread* me = current();
  if (!me) {
    Rt rt;
    me = adoptMain();
    if (!g_on) { g_switches = 0; g_mode = 0; __libc_single_threaded = 0; g_on = true; newGap(); }
  }
  Thread* t = start(me, nullptr, f, arg, a);
  *o = t->os;
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  resolve();
  Thread* me = current();
  if (me)
    for (auto& t : g_threads)
      if (t.used && &t != me && pthread_equal(t.os, p)) { finish(me, &t, ret); return 0; }
  return real_pthread_join(p, ret);
}
int pthread_detach(pthread_t p) {
  resolve();
  if (current())
    for (auto& t : g_threads)
      if (t.used && pthread_equal(t.os, p)) { t.detached = true; if (t.done) { t.exit_ok = true; wake(&t); } return real_pthread_detach(p); }
  return real_pthread_detach(p);
}
int sched_yield() {
  resolve();
  Thread* t = current();
  if (!t) return real_sched_yield();
  Rt rt;
  preempt(t);
  return 0;
}
// waiting on a futex (std::future, std::atomic::wait) is letting others run
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (auto& x : a) x = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && !t_rt) {
    Thread* t = current();
    int op = static_cast<int>(a[1]) & FUTEX_CMD_MASK;
    if (t && (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)) {
      Rt rt;
      if (++t->spins > 20000) sim::violation("deadlock", "a thread waits for ever");
      preempt(t);
      if (a[3] && t->spins > 1000) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
  }
  long r = rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = static_cast<int>(-r); return -1; }
  return r;
}
int __cxa_guard_acquire(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  Thread* t = current();
  if (!t || (t_rt && !fromExe(PC))) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
    b[1] = 1;
    return 1;
  }
  Rt rt;
  while (!b[0] && b[1]) block(t, g);
  if (b[0]) { acquire(t, g); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = reinterpret_cast<unsigned char*>(g);
  b[1] = 0;
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  if (Thread* t = current()) { Rt rt; release(t, g); unblock(g); }
}
void __cxa_guard_abort(uint64_t* g) {
  reinterpret_cast<unsigned char*>(g)[1] = 0;
  if (current()) unblock(g);
}
}
namespace { struct Init { Init() { resolve(); } } g_init; }
