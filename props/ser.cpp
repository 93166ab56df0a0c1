#include "ser.h"
#include <cstdio>
#include <cstring>
#include <cmath>
// The text is produced with OGR's own accessors on the stored geometry, not with
// the library's conversions, so that it shows what is stored.
namespace ser {
std::string num(double d) {
  char b[40];
  if (d == 0) d = 0;  // -0.0 and 0.0 are the same result
  if (std::isnan(d)) return "nan";
  snprintf(b, sizeof b, "%.17g", d);
  if (char* c = strchr(b, ',')) *c = '.';   // whatever the process locale
  return b;
}
static void pts(const OGRSimpleCurve* c, std::string& r) {
  r += "(";
  for (int i = 0; i < c->getNumPoints(); ++i) {
    if (i) r += ",";
    r += num(c->getX(i)) + " " + num(c->getY(i));
    if (c->getZ(i) != 0) r += " z" + num(c->getZ(i));
  }
  r += ")";
}
std::string geom(const OGRGeometry* g) {
  if (!g) return "null";
  std::string r = g->getGeometryName();
  switch (wkbFlatten(g->getGeometryType())) {
    case wkbPoint: {
      auto* p = g->toPoint();
      if (p->IsEmpty()) return r + " EMPTY";
      r += "(" + num(p->getX()) + " " + num(p->getY());
      if (p->getZ() != 0) r += " z" + num(p->getZ());
      return r + ")";
    }
    case wkbLineString: pts(g->toLineString(), r); return r;
    case wkbPolygon: {
      auto* p = g->toPolygon();
      r += "{";
      if (p->getExteriorRing()) {
        pts(p->getExteriorRing(), r);
        for (int i = 0; i < p->getNumInteriorRings(); ++i) pts(p->getInteriorRing(i), r);
      }
      return r + "}";
    }
    default: break;
  }
  if (OGR_GT_IsSubClassOf(g->getGeometryType(), wkbGeometryCollection)) {
    auto* c = g->toGeometryCollection();
    r += "[";
    for (int i = 0; i < c->getNumGeometries(); ++i) { if (i) r += ";"; r += geom(c->getGeometryRef(i)); }
    return r + "]";
  }
  return r + "?";
}
std::string s(const F2CPoint& p) { return geom(p.get()); }
std::string s(const F2CLineString& g) { return geom(g.get()); }
std::string s(const F2CLinearRing& g) { return geom(g.get()); }
std::string s(const F2CMultiLineString& g) { return geom(g.get()); }
std::string s(const F2CMultiPoint& g) { return geom(g.get()); }
std::string s(const F2CCell& g) { return geom(g.get()); }
std::string s(const F2CCells& g) { return geom(g.get()); }
std::string s(const F2CSwath& x) {
  return "swath{" + std::to_string(x.getId()) + " w" + num(x.getWidth()) + " d" +
    std::to_string(x.getCreationDir()) + " t" + std::to_string(static_cast<int>(x.getType())) + " " + s(x.getPath()) + "}";
}
std::string s(const F2CSwaths& x) {
  std::string r = "swaths[";
  for (size_t i = 0; i < x.size(); ++i) r += s(x.at(i)) + "\n";
  return r + "]";
}
std::string s(const F2CSwathsByCells& x) {
  std::string r = "bycells[";
  for (size_t i = 0; i < x.size(); ++i) r += s(x.at(i)) + "\n";
  return r + "]";
}
std::string s(const F2CRoute& x) {
  std::string r = "route{";
  for (size_t i = 0; i < x.sizeVectorSwaths(); ++i) r += s(x.getSwaths(i)) + "\n";
  r += "|";
  for (size_t i = 0; i < x.sizeConnections(); ++i) r += s(x.getConnection(i)) + "\n";
  return r + "}";
}
std::string s(const F2CField& x) {
  return "field{" + x.getId() + " crs<" + x.getCRS() + "> prev<" + x.getPrevCRS() + "> ref " +
    s(x.getRefPoint()) + " " + s(x.getField()) + "}";
}
std::string s(const F2CRobot& x) {
  return "robot{" + x.getName() + " " + num(x.getWidth()) + " " + num(x.getCovWidth()) + " " +
    num(x.getCruiseVel()) + " " + num(x.getTurnVel()) + " " + num(x.getMaxCurv()) + " " + num(x.getMaxDiffCurv()) + "}";
}
std::string s(const F2CPath& x) {
  std::string r = "path[";
  for (size_t i = 0; i < x.size(); ++i) {
    auto& st = x[i];
    r += s(st.point) + " a" + num(st.angle) + " l" + num(st.len) + " v" + num(st.velocity) + " " +
      std::to_string(static_cast<int>(st.dir)) + " " + std::to_string(static_cast<int>(st.type)) + "\n";
  }
  return r + "]";
}
std::string s(const F2CStrip& x) { return "strip{" + x.getName() + " " + s(x.getCell()) + "}"; }
std::string s(const std::vector<F2CPoint>& x) {
  std::string r = "[";
  for (auto& p : x) r += s(p) + ",";
  return r + "]";
}
}  // namespace ser
