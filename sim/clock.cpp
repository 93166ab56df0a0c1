// Simulated clock and entropy: time(), clock_gettime(), gettimeofday(), the
// sleeps, and std::random_device.
#include "fault.h"
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <random>

namespace {
int64_t g_ns = 1700000000LL * 1000000000LL;
uint64_t g_entropy = 42;
bool g_on = false;
}
namespace sim {
void clockSet(int64_t s) { g_ns = s * 1000000000LL; g_on = true; }
void clockAdvance(double s) { g_ns += static_cast<int64_t>(s * 1e9); }
double clockNow() { return g_ns * 1e-9; }
void entropySeed(uint64_t s) { g_entropy = s; }
}
extern "C" time_t time(time_t* t) noexcept {
  time_t v;
  if (g_on) { v = g_ns / 1000000000LL; }
  else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
  if (t) *t = v;
  return v;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
  if (!g_on) return syscall(SYS_clock_gettime, id, ts);
  g_ns += 1000;  // time passes between two readings
  ts->tv_sec = g_ns / 1000000000LL;
  ts->tv_nsec = g_ns % 1000000000LL;
  return 0;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
extern "C" clock_t clock(void) noexcept {
  struct timespec ts;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
  return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / (1000000000LL / CLOCKS_PER_SEC);
}
extern "C" int nanosleep(const struct timespec* req, struct timespec*) {
  if (g_on) { g_ns += req->tv_sec * 1000000000LL + req->tv_nsec; return 0; }
  return syscall(SYS_nanosleep, req, nullptr);
}
std::random_device::result_type std::random_device::_M_getval() {
  uint64_t z = (g_entropy += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  return static_cast<unsigned>(z >> 16);
}
