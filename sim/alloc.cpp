// operator new/delete of the simulated program.
#include "fault.h"
#include <dlfcn.h>
#include <stdlib.h>
#include <new>

extern "C" char __executable_start;
extern "C" char etext;

namespace {
// Plain globals: armed windows run in one thread (simulated threads run one at
// a time under the scheduler's baton).
bool g_counting = false, g_armed = false;
int g_pause = 0;
uint64_t g_count = 0, g_at = 0, g_n = 0, g_failed = 0;

inline bool fromExe(const void* ra) {
  const char* p = static_cast<const char*>(ra);
  return p >= &__executable_start && p < &etext;
}

inline bool failNow(const void* ra) {
  if ((!g_counting && !g_armed) || g_pause || !fromExe(ra)) return false;
  ++g_count;
  if (g_armed && g_count >= g_at && g_count < g_at + g_n) { ++g_failed; return true; }
  return false;
}

inline void* get(size_t n, const void* ra) {
  if (__builtin_expect(g_counting || g_armed, 0) && failNow(ra)) return nullptr;
  return malloc(n ? n : 1);
}
inline void* getAligned(size_t n, size_t a, const void* ra) {
  if (__builtin_expect(g_counting || g_armed, 0) && failNow(ra)) return nullptr;
  void* p = nullptr;
  return posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1) == 0 ? p : nullptr;
}
}  // namespace

namespace sim {
void allocCountStart() { g_counting = true; g_armed = false; g_count = 0; }
uint64_t allocCountStop() { g_counting = false; return g_count; }
void allocArm(uint64_t k, uint64_t n) { g_armed = true; g_counting = false; g_count = 0; g_at = k; g_n = n; g_failed = 0; }
uint64_t allocDisarm() { g_armed = false; return g_failed; }
AllocPause::AllocPause() { ++g_pause; }
AllocPause::~AllocPause() { --g_pause; }
}  // namespace sim

#define RA __builtin_return_address(0)
void* operator new(size_t n) { void* p = get(n, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = get(n, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, RA); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, RA); }
void* operator new(size_t n, std::align_val_t a) { void* p = getAligned(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = getAligned(n, (size_t)a, RA); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
