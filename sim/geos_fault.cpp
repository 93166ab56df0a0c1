// GEOS C entry points that OGR calls to build geometry, behind a fault switch.
// The definitions here win over libgeos_c's; they forward to the real ones.
#include "fault.h"
#include <dlfcn.h>
#include <geos_c.h>

namespace {
bool g_counting = false, g_armed = false;
uint64_t g_count = 0, g_at = 0, g_n = 0, g_failed = 0;
const char* g_last = "";

bool failNow(const char* name) {
  if (!g_counting && !g_armed) return false;
  ++g_count;
  if (g_armed && g_count >= g_at && g_count < g_at + g_n) { ++g_failed; g_last = name; return true; }
  return false;
}
}  // namespace

namespace sim {
void geosCountStart() { g_counting = true; g_armed = false; g_count = 0; }
uint64_t geosCountStop() { g_counting = false; return g_count; }
void geosArm(uint64_t k, uint64_t n) { g_armed = true; g_counting = false; g_count = 0; g_at = k; g_n = n; g_failed = 0; }
uint64_t geosDisarm() { g_armed = false; return g_failed; }
const char* geosLastFailed() { return g_last; }
}  // namespace sim

#define REAL(name) static auto real = reinterpret_cast<decltype(&name)>(dlsym(RTLD_NEXT, #name))
typedef GEOSContextHandle_t H;
typedef const GEOSGeometry* CG;
#define BIN(name) extern "C" GEOSGeometry* name(H h, CG a, CG b) { \
  REAL(name); return failNow(#name) ? nullptr : real(h, a, b); }
#define UNI(name) extern "C" GEOSGeometry* name(H h, CG a) { \
  REAL(name); return failNow(#name) ? nullptr : real(h, a); }
#define DBL(name) extern "C" GEOSGeometry* name(H h, CG a, double d) { \
  REAL(name); return failNow(#name) ? nullptr : real(h, a, d); }

BIN(GEOSIntersection_r)
BIN(GEOSDifference_r)
BIN(GEOSSymDifference_r)
BIN(GEOSUnion_r)
UNI(GEOSUnaryUnion_r)
UNI(GEOSUnionCascaded_r)
UNI(GEOSConvexHull_r)
UNI(GEOSMakeValid_r)
DBL(GEOSSimplify_r)
DBL(GEOSTopologyPreserveSimplify_r)
extern "C" GEOSGeometry* GEOSBuffer_r(H h, CG a, double w, int q) {
  REAL(GEOSBuffer_r); return failNow("GEOSBuffer_r") ? nullptr : real(h, a, w, q); }
extern "C" GEOSGeometry* GEOSMakeValidWithParams_r(H h, CG a, const GEOSMakeValidParams* p) {
  REAL(GEOSMakeValidWithParams_r); return failNow("GEOSMakeValidWithParams_r") ? nullptr : real(h, a, p); }
extern "C" GEOSGeometry* GEOSPolygonize_r(H h, CG const g[], unsigned n) {
  REAL(GEOSPolygonize_r); return failNow("GEOSPolygonize_r") ? nullptr : real(h, g, n); }
extern "C" GEOSGeometry* GEOSBufferWithParams_r(H h, CG a, const GEOSBufferParams* p, double w) {
  REAL(GEOSBufferWithParams_r); return failNow("GEOSBufferWithParams_r") ? nullptr : real(h, a, p, w); }
extern "C" GEOSGeometry* GEOSOffsetCurve_r(H h, CG a, double w, int q, int j, double m) {
  REAL(GEOSOffsetCurve_r); return failNow("GEOSOffsetCurve_r") ? nullptr : real(h, a, w, q, j, m); }
