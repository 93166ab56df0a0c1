// Coordinate-system services (GDAL/PROJ) behind a fault switch. Only calls made
// by Fields2Cover's own code pass here.
#include "fault.h"
#include <dlfcn.h>
#include <math.h>
#include <ogr_spatialref.h>

namespace {
sim::CrsPlan g_plan;
bool g_armed = false;
sim::CrsStats g_st;

class FaultyCT : public OGRCoordinateTransformation {
 public:
  explicit FaultyCT(OGRCoordinateTransformation* in) : in_(in) {}
  ~FaultyCT() override { OGRCoordinateTransformation::DestroyCT(in_); }
  const OGRSpatialReference* GetSourceCS() const override { return in_->GetSourceCS(); }
  const OGRSpatialReference* GetTargetCS() const override { return in_->GetTargetCS(); }
  int Transform(int n, double* x, double* y, double* z, double* t, int* ok) override {
    int* own = ok ? nullptr : new int[n > 0 ? n : 1];
    int* o = ok ? ok : own;
    int r = in_->Transform(n, x, y, z, t, o);
    for (int i = 0; i < n; ++i) {
      ++g_st.points;
      if (g_armed && g_plan.fail_point >= 0 && static_cast<int64_t>(g_st.points) > g_plan.fail_point &&
          static_cast<int64_t>(g_st.points) <= g_plan.fail_point + g_plan.fail_points) {
        x[i] = y[i] = HUGE_VAL;
        o[i] = FALSE;
        r = FALSE;
        ++g_st.point_failed;
      }
    }
    delete[] own;
    return r;
  }
  OGRCoordinateTransformation* Clone() const override { return new FaultyCT(in_->Clone()); }
  OGRCoordinateTransformation* GetInverse() const override { return in_->GetInverse(); }
 private:
  OGRCoordinateTransformation* in_;
};

OGRCoordinateTransformation* wrap(OGRCoordinateTransformation* ct) {
  if (!g_armed || !ct) return ct;
  return new FaultyCT(ct);
}
bool createFails() {
  if (!g_armed) return false;
  ++g_st.created;
  if (g_plan.fail_create > 0 && static_cast<int64_t>(g_st.created) == g_plan.fail_create) { ++g_st.create_failed; return true; }
  return false;
}
bool importFails() {
  if (!g_armed) return false;
  ++g_st.imports;
  if (g_plan.fail_import > 0 && static_cast<int64_t>(g_st.imports) == g_plan.fail_import) { ++g_st.import_failed; return true; }
  return false;
}
}  // namespace

namespace sim {
void crsArm(const CrsPlan& p) { g_plan = p; g_st = {}; g_armed = true; }
void crsDisarm() { g_armed = false; }
CrsStats crsStats() { return g_st; }
}  // namespace sim

OGRCoordinateTransformation* OGRCreateCoordinateTransformation(
    const OGRSpatialReference* a, const OGRSpatialReference* b) {
  static auto real = reinterpret_cast<OGRCoordinateTransformation* (*)(const OGRSpatialReference*, const OGRSpatialReference*)>(
      dlsym(RTLD_NEXT, "_Z33OGRCreateCoordinateTransformationPK19OGRSpatialReferenceS1_"));
  return createFails() ? nullptr : wrap(real(a, b));
}
OGRCoordinateTransformation* OGRCreateCoordinateTransformation(
    const OGRSpatialReference* a, const OGRSpatialReference* b, const OGRCoordinateTransformationOptions& o) {
  static auto real = reinterpret_cast<OGRCoordinateTransformation* (*)(const OGRSpatialReference*, const OGRSpatialReference*, const OGRCoordinateTransformationOptions&)>(
      dlsym(RTLD_NEXT, "_Z33OGRCreateCoordinateTransformationPK19OGRSpatialReferenceS1_RK34OGRCoordinateTransformationOptions"));
  return createFails() ? nullptr : wrap(real(a, b, o));
}

#define IMPORT1(fn, mangled, T) \
  extern "C" OGRErr fn(OGRSpatialReference* self, T a) asm(mangled); \
  extern "C" OGRErr fn(OGRSpatialReference* self, T a) { \
    static auto real = reinterpret_cast<OGRErr (*)(OGRSpatialReference*, T)>(dlsym(RTLD_NEXT, mangled)); \
    return importFails() ? OGRERR_FAILURE : real(self, a); }
IMPORT1(f2c_importFromEPSG, "_ZN19OGRSpatialReference14importFromEPSGEi", int)
IMPORT1(f2c_importFromEPSGA, "_ZN19OGRSpatialReference15importFromEPSGAEi", int)
IMPORT1(f2c_importFromProj4, "_ZN19OGRSpatialReference15importFromProj4EPKc", const char*)
IMPORT1(f2c_SetFromUserInput, "_ZN19OGRSpatialReference16SetFromUserInputEPKc", const char*)
IMPORT1(f2c_SetWellKnownGeogCS, "_ZN19OGRSpatialReference17SetWellKnownGeogCSEPKc", const char*)
