// variant=asan uses=ser,solver
// Changes of coordinate system of fields, swaths, routes, strips, paths and
// points; lookups of systems, creations of transformations and conversions of
// points fail. Oracle: every coordinate converted one by one by the harness,
// and the object before the failing call.
#include <ogr_spatialref.h>
#include <cmath>
#include <cstring>
#include <map>
#include <memory>
#include "fault.h"
#include "ser.h"
#include "sim.h"
const char* const kProperty = "C08";
using sim::OPS;
using sim::FAULT;
using f2c::Transform;

namespace {
struct P3 { double x {0}, y {0}, z {0}; };

// The harness's own reading of the labels.
std::unique_ptr<OGRSpatialReference> srs(const std::string& label) {
  auto r = std::make_unique<OGRSpatialReference>();
  OGRErr e = OGRERR_FAILURE;
  int zone = 0; char h = 0, datum[16] = {0};
  if (label.compare(0, 5, "EPSG:") == 0) e = r->importFromEPSG(atoi(label.c_str() + 5));
  else if (sscanf(label.c_str(), "UTM:%d%c datum:%15s", &zone, &h, datum) == 3) {
    std::string d = datum, p = "+proj=utm +zone=" + std::to_string(zone) + (h == 'S' || h == 's' ? " +south" : "");
    for (auto& c : d) c = tolower(c);
    if (d == "etrs89") p += " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0";
    else if (d == "wgs84") p += " +datum=WGS84";
    else return nullptr;
    e = r->importFromProj4((p + " +units=m +no_defs +type=crs").c_str());
  }
  if (e != OGRERR_NONE) return nullptr;
  r->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
  return r;
}
// Creating systems and transformations is slow: once per process
OGRCoordinateTransformation* ct(const std::string& a, const std::string& b) {
  static std::map<std::pair<std::string, std::string>, std::unique_ptr<OGRCoordinateTransformation>> cache;
  auto it = cache.find({a, b});
  if (it != cache.end()) return it->second.get();
  auto x = srs(a), y = srs(b);
  std::unique_ptr<OGRCoordinateTransformation> t(x && y ? OGRCreateCoordinateTransformation(x.get(), y.get()) : nullptr);
  return (cache[{a, b}] = std::move(t)).get();
}
// false: not convertible
bool known(const std::string& a, const std::string& b) { return ct(a, b) != nullptr; }
bool convert(const std::string& a, const std::string& b, std::vector<P3>& v) {
  auto t = ct(a, b);
  if (!t) return false;
  for (auto& p : v) if (!t->Transform(1, &p.x, &p.y, &p.z)) return false;
  return true;
}
bool geographic(const std::string& l) { return l == "EPSG:4326" || l == "EPSG:4258"; }
double tolerance(const std::string& a, const std::string& b) {
  bool rd = a == "EPSG:28992" || b == "EPSG:28992";
  return geographic(b) ? (rd ? 5e-5 : 1e-8) : (rd ? 4.0 : 1e-3);
}
bool close(double a, double b, double tol) { return a == b || (a != a && b != b) || std::fabs(a - b) <= tol; }
std::string cmp(const std::vector<P3>& want, const std::vector<P3>& got, double tol) {
  if (want.size() != got.size()) return std::to_string(want.size()) + " coordinates expected, got " + std::to_string(got.size());
  for (size_t i = 0; i < want.size(); ++i) {
    // far outside its zone a projection and its inverse agree less well
    if (tol == 1e-3 && (std::fabs(want[i].x) > 2e6 || std::fabs(want[i].y) > 9.5e6)) tol = 4e-3;
    if (!close(want[i].x, got[i].x, tol) || !close(want[i].y, got[i].y, tol) || !close(want[i].z, got[i].z, 1e-3))
      return "coordinate " + std::to_string(i) + ": expected " + ser::num(want[i].x) + " " + ser::num(want[i].y) + " " + ser::num(want[i].z) + ", got " + ser::num(got[i].x) + " " + ser::num(got[i].y) + " " + ser::num(got[i].z);
  }
  return "";
}
void points(const OGRGeometry* g, std::vector<P3>& r, const P3& o) {
  switch (wkbFlatten(g->getGeometryType())) {
    case wkbPoint: { auto p = g->toPoint(); r.push_back({p->getX() + o.x, p->getY() + o.y, p->getZ() + o.z}); return; }
    case wkbLineString: { auto l = g->toLineString(); for (int i = 0; i < l->getNumPoints(); ++i) r.push_back({l->getX(i) + o.x, l->getY(i) + o.y, l->getZ(i) + o.z}); return; }
    case wkbPolygon: for (auto&& x : *g->toPolygon()) points(x, r, o); return;
    default: for (auto&& x : *g->toGeometryCollection()) points(x, r, o);
  }
}
P3 p3(const F2CPoint& p) { return {p->getX(), p->getY(), p->getZ()}; }
std::vector<P3> pts(const F2CField& f) {
  std::vector<P3> r;
  if (f.isEmpty()) r.push_back(p3(f.getRefPoint()));
  else points(f.getField().get(), r, p3(f.getRefPoint()));
  return r;
}
void add(std::vector<P3>& r, const F2CSwath& s, const P3& o) { F2CLineString l = s.getPath(); points(l.get(), r, o); }
std::vector<P3> pts(const F2CSwaths& s, const P3& o) { std::vector<P3> r; for (size_t i = 0; i < s.size(); ++i) add(r, s.at(i), o); return r; }
std::vector<P3> pts(const F2CRoute& x, const P3& o) {
  std::vector<P3> r;
  for (size_t i = 0; i < x.sizeVectorSwaths(); ++i) for (auto& p : pts(x.getSwaths(i), o)) r.push_back(p);
  for (size_t i = 0; i < x.sizeConnections(); ++i) { F2CMultiPoint m = x.getConnection(i); points(m.get(), r, o); }
  return r;
}
std::vector<P3> pts(const F2CPath& x, const P3& o) {
  std::vector<P3> r;
  for (size_t i = 0; i < x.size(); ++i) points(x[i].point.get(), r, o);
  return r;
}
std::string rest(const F2CSwath& s) { return std::to_string(s.getId()) + " w" + ser::num(s.getWidth()) + " d" + std::to_string(s.getCreationDir()) + " t" + std::to_string(static_cast<int>(s.getType())) + ";"; }
std::string rest(const F2CSwaths& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) r += rest(s.at(i)); return r; }
std::string rest(const F2CRoute& x) {
  std::string r;
  for (size_t i = 0; i < x.sizeVectorSwaths(); ++i) r += rest(x.getSwaths(i)) + "|";
  for (size_t i = 0; i < x.sizeConnections(); ++i) r += std::to_string(x.getConnection(i).size()) + ",";
  return r;
}

struct Inputs {
  std::string crs;
  double lon, lat;
  F2CField field;
  F2CSwaths swaths; F2CRoute route; F2CPath path; F2CStrips strips; F2CPoint point;
};
F2CField deep(const F2CField& f) {
  F2CField r;
  r.setId(f.getId()); r.setCRS(f.getCRS()); r.setPrevCRS(f.getPrevCRS());
  r.setRefPoint(F2CPoint(f.getRefPoint()->getX(), f.getRefPoint()->getY(), f.getRefPoint()->getZ()));
  r.setField(F2CCells(f.getField().get()));
  return r;
}
const char* kKnown[] = {"EPSG:4326", "EPSG:4258", "UTM", "EPSG:28992", "EPSG:3857", "UTM-ETRS"};
const char* kUnknown[] = {"EPSG:999999", "NONE", "UTM:61N datum:WGS84", "UTM:31N datum:foo", "", "EPSG:0", "EPSG:x", "UTM:N datum:WGS84"};
std::string utmLabel(double lon, double lat, const char* datum) {
  return "UTM:" + std::to_string(static_cast<int>(std::floor((lon + 180) / 6)) + 1) + (lat > 0 ? "N" : "S") + " datum:" + datum;
}
std::string pickCrs(double lon, double lat) {
  std::string k = kKnown[sim::draw(OPS, 6)];
  if (k == "UTM") return utmLabel(lon, lat, "WGS84");
  if (k == "UTM-ETRS") return utmLabel(lon, lat, sim::draw(OPS, 2) ? "etrs89" : "ETRS89");
  bool nl = lon > 3.5 && lon < 7 && lat > 51 && lat < 53.5;
  if (k == "EPSG:28992" && !nl) return "EPSG:4326";
  return k;
}
Inputs make() {
  Inputs in;
  if (sim::draw(OPS, 3)) { in.lon = 4.2 + 0.1 * sim::draw(OPS, 17); in.lat = 51.2 + 0.1 * sim::draw(OPS, 20); }
  else {
    in.lon = -179.5 + 0.5 * sim::draw(OPS, 717);
    if (std::fabs(std::remainder(in.lon, 6.0)) < 0.3) in.lon += 0.7;
    in.lat = -72.25 + 0.5 * sim::draw(OPS, 290);
  }
  if (std::fabs(std::remainder(in.lon, 6.0)) < 0.02) in.lon += 0.03;
  in.crs = pickCrs(in.lon, in.lat);
  // absolute coordinates in the system of the label
  bool z = sim::draw(OPS, 4) == 3;
  auto at = [&](double dx, double dy) {
    std::vector<P3> v {{in.lon + dx * 1e-5, in.lat + dy * 1e-5, z ? 1.5 : 0.0}};
    if (!convert("EPSG:4326", in.crs, v)) sim::harnessError("no coordinates in %s", in.crs.c_str());
    return v[0];
  };
  F2CCells cells;
  int nc = sim::draw(OPS, 8) == 7 ? 0 : 1 + sim::draw(OPS, 2);
  auto ring = [&](double x, double y, double s) {
    F2CLinearRing r;
    int n = 3 + sim::draw(OPS, 4);
    P3 first;
    for (int i = 0; i < n; ++i) {
      P3 p = at(x + s * std::cos(2 * M_PI * i / n), y + s * std::sin(2 * M_PI * i / n));
      if (i == 0) first = p;
      r.addPoint(p.x, p.y, p.z);
    }
    r.addPoint(first.x, first.y, first.z);
    return r;
  };
  for (int i = 0; i < nc; ++i) {
    F2CCell c;
    c.addRing(ring(400.0 * i, 0, 100 + sim::draw(OPS, 50)));
    if (sim::draw(OPS, 3) == 2) c.addRing(ring(400.0 * i, 0, 30));
    cells.addGeometry(c);
  }
  P3 ref = at(100, 0);
  if (nc) in.field = F2CField(cells, "f");
  else in.field.setRefPoint(F2CPoint(ref.x, ref.y, ref.z));
  in.field.setId("f" + std::to_string(sim::draw(OPS, 100)));
  in.field.setCRS(in.crs);
  if (sim::draw(OPS, 2)) in.field.setPrevCRS(pickCrs(in.lon, in.lat));
  // coordinates relative to the field
  double u = geographic(in.crs) ? 1e-5 : 1.0;
  P3 last {};
  auto rel = [&](bool far) {
    // sometimes beside the last point, by a centimetre or less
    double e = 9e-8;
    if (!far && sim::draw(OPS, 6) == 5) return F2CPoint(last.x + e * (static_cast<int>(sim::draw(OPS, 3)) - 1), last.y + e, last.z);
    F2CPoint r(u * (static_cast<int>(sim::draw(OPS, 200)) - 100) + (far ? ref.x : 0), u * (static_cast<int>(sim::draw(OPS, 200)) - 100) + (far ? ref.y : 0), z ? 0.5 : 0);
    if (!far) last = p3(r);
    return r;
  };
  auto swaths = [&](int n) {
    F2CSwaths s;
    for (int i = 0; i < n; ++i) {
      F2CLineString l;
      for (int j = 0, k = 2 + sim::draw(OPS, 2); j < k; ++j) l.addPoint(rel(false));
      F2CSwath x(l, 1.0 + sim::draw(OPS, 5), sim::draw(OPS, 50), sim::draw(OPS, 2) ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
      if (sim::draw(OPS, 2)) x.setCreationDir(false);
      s.push_back(x);
    }
    return s;
  };
  in.swaths = swaths(1 + sim::draw(OPS, 4));
  for (int i = 0, n = 1 + sim::draw(OPS, 2); i < n; ++i) {
    F2CMultiPoint m;
    for (int j = 0, k = 1 + sim::draw(OPS, 3); j < k; ++j) m.addPoint(rel(false));
    in.route.addConnection(m);
    in.route.addSwaths(swaths(1 + sim::draw(OPS, 3)));
  }
  for (int i = 0, n = sim::draw(OPS, 6); i < n; ++i)
    in.path.addState(rel(false), 0.1 * sim::draw(OPS, 60), u * sim::draw(OPS, 20), f2c::types::PathDirection::FORWARD, f2c::types::PathSectionType::SWATH, 1.0 + sim::draw(OPS, 3));
  for (int i = 0, n = 1 + sim::draw(OPS, 2); i < n; ++i) {
    F2CStrip s;
    s.setName("s" + std::to_string(i));
    F2CCell c; c.addRing(ring(50.0 * i, 10, 20)); s.setCell(c);
    in.strips.push_back(s);
  }
  in.point = rel(true);
  return in;
}

// One call: its complete result as text, or "!" when it threw. Fills what the
// oracle needs.
struct Call { uint32_t kind; bool flag; std::string to; };
struct Out { bool threw {false}; std::string text; std::vector<P3> got, want; std::string got_rest, want_rest, from, to; bool convertible {true}; F2CField field; };
const char* kName[] = {"field", "toUTM", "fieldToPrev", "swaths", "swath", "route", "path", "strips", "point", "refInGps", "pathDirect", "swathsDirect", "routeRef", "cells", "strip", "pathRef", "refPoint", "swathDirect", "pointsRef", "swathRef", "swathsRef", "stripsDirect", "lineRef", "ring"};

Out call(const Call& c, Inputs& in, F2CField& f) {
  Out o;
  const F2CField before = deep(f);
  P3 ref = p3(before.getRefPoint());
  std::string crs = before.getCRS(), prev = before.getPrevCRS();
  o.from = crs;
  try {
    switch (c.kind) {
      case 0: o.to = c.to; o.want = pts(before); Transform::transform(f, c.to); o.got = pts(f); o.text = ser::s(f);
        o.want_rest = "f crs " + c.to + " prev " + crs; o.got_rest = "f crs " + f.getCRS() + " prev " + f.getPrevCRS(); break;
      case 1: o.want = pts(before); Transform::transformToUTM(f, c.flag); o.to = f.getCRS(); o.got = pts(f); o.text = ser::s(f);
        if (crs.empty()) o.from = f.getPrevCRS();
        o.want_rest = "prev " + (crs.empty() ? f.getPrevCRS() : crs); o.got_rest = "prev " + f.getPrevCRS(); break;
      case 2: o.to = prev; o.want = pts(before); Transform::transformToPrevCRS(f); o.got = pts(f); o.text = ser::s(f);
        o.want_rest = "f crs " + prev + " prev " + crs; o.got_rest = "f crs " + f.getCRS() + " prev " + f.getPrevCRS(); break;
      case 3: { o.to = prev; o.want = pts(in.swaths, ref); auto r = Transform::transformToPrevCRS(in.swaths, f); o.got = pts(r, {}); o.text = ser::s(r); o.want_rest = rest(in.swaths); o.got_rest = rest(r); break; }
      case 4: { o.to = prev; add(o.want, in.swaths[0], ref); auto r = Transform::transformToPrevCRS(in.swaths[0], f); add(o.got, r, {}); o.text = ser::s(r); o.want_rest = rest(in.swaths[0]); o.got_rest = rest(r); break; }
      case 5: { o.to = prev; o.want = pts(in.route, ref); auto r = Transform::transformToPrevCRS(in.route, f); o.got = pts(r, {}); o.text = ser::s(r); o.want_rest = rest(in.route); o.got_rest = rest(r); break; }
      case 12: { o.to = c.to; o.want = pts(in.route, ref); auto r = Transform::transformRouteWithFieldRef(in.route, f, c.to); o.got = pts(r, {}); o.text = ser::s(r); o.want_rest = rest(in.route); o.got_rest = rest(r); break; }
      case 6: case 15: {
        o.to = c.kind == 6 ? prev : c.to;
        o.want = pts(in.path, ref);
        if (in.path.size() && in.path.back().len > 0) { auto e = in.path.atEnd(); o.want.push_back({e.getX() + ref.x, e.getY() + ref.y, e.getZ() + ref.z}); }
        auto r = c.kind == 6 ? Transform::transformToPrevCRS(in.path, f) : Transform::transformPathWithFieldRef(in.path, f, c.to);
        o.got = pts(r, {}); o.text = ser::s(r);
        for (size_t i = 0; i + 1 < r.size(); ++i) {
          double d = std::hypot(r[i + 1].point.getX() - r[i].point.getX(), r[i + 1].point.getY() - r[i].point.getY());
          if (std::fabs(d - r[i].len) > 1e-6 * (1 + d)) o.got_rest += "length of state " + std::to_string(i) + " is " + ser::num(r[i].len) + " for a distance of " + ser::num(d) + ";";
          double a = std::atan2(r[i + 1].point.getY() - r[i].point.getY(), r[i + 1].point.getX() - r[i].point.getX());
          if (d > 1e-6 && std::cos(a - r[i].angle) < 1 - 1e-9) o.got_rest += "angle of state " + std::to_string(i) + " is " + ser::num(r[i].angle) + " instead of " + ser::num(a) + ";";
        }
        for (size_t i = 0; i < in.path.size() && i < r.size(); ++i)
          if (r[i].velocity != in.path[i].velocity || r[i].type != in.path[i].type || r[i].dir != in.path[i].dir) o.got_rest += "state " + std::to_string(i) + " changed;";
        break; }
      case 7: { o.to = prev; for (auto& s : in.strips) { points(s.getCell().get(), o.want, {}); o.want_rest += s.getName(); }
        auto r = Transform::transformToPrevCRS(in.strips, f); for (auto& s : r) { points(s.getCell().get(), o.got, {}); o.text += ser::s(s); o.got_rest += s.getName(); } break; }
      case 14: { o.to = c.to; points(in.strips[0].getCell().get(), o.want, {}); o.want_rest = in.strips[0].getName();
        auto r = Transform::transformStrip(in.strips[0], crs, c.to); points(r.getCell().get(), o.got, {}); o.text = ser::s(r); o.got_rest = r.getName(); break; }
      case 8: { o.to = c.to; o.want.push_back(p3(in.point)); auto r = Transform::transform(in.point, crs, c.to); o.got.push_back(p3(r)); o.text = ser::s(r); break; }
      case 16: { o.to = c.to; F2CPoint p(1, 2); o.want.push_back({1 + ref.x, 2 + ref.y, ref.z}); auto r = Transform::transform(p, before.getRefPoint(), crs, c.to); o.got.push_back(p3(r)); o.text = ser::s(r); break; }
      case 9: { o.to = "EPSG:4326"; o.want.push_back(ref); auto r = Transform::getRefPointInGPS(f); o.got.push_back(p3(r)); o.text = ser::s(r); break; }
      case 10: { o.to = c.to; F2CPath p = in.path; for (auto& s : p) s.point = s.point + before.getRefPoint(); o.want = pts(p, {}); auto r = Transform::transformPath(p, crs, c.to); o.got = pts(r, {}); o.text = ser::s(r); break; }
      case 11: { o.to = c.to; F2CSwaths s = in.swaths.clone(); s.moveTo(before.getRefPoint()); o.want = pts(s, {}); auto r = Transform::transformSwaths(s, crs, c.to); o.got = pts(r, {}); o.text = ser::s(r); o.want_rest = rest(s); o.got_rest = rest(r); break; }
      case 17: { o.to = c.to; F2CSwath s = in.swaths[0].clone(); s.moveTo(before.getRefPoint()); add(o.want, s, {}); auto r = Transform::transformSwath(s, crs, c.to); add(o.got, r, {}); o.text = ser::s(r); o.want_rest = rest(s); o.got_rest = rest(r); break; }
      case 18: {
        o.to = c.to;
        const F2CMultiPoint& m = in.route.getConnection(0);
        for (size_t i = 0; i < m.size(); ++i) { P3 q = p3(m.getGeometry(i)); o.want.push_back({q.x + ref.x, q.y + ref.y, q.z + ref.z}); }
        auto r = Transform::transformMultiPointWithFieldRef(m, f, c.to);
        for (size_t i = 0; i < r.size(); ++i) o.got.push_back(p3(r.getGeometry(i)));
        o.text = ser::s(r); break; }
      case 19: { o.to = c.to; const F2CSwath& s = in.swaths.back(); add(o.want, s, ref); auto r = Transform::transformSwathWithFieldRef(s, f, c.to); add(o.got, r, {}); o.text = ser::s(r); o.want_rest = rest(s); o.got_rest = rest(r); break; }
      case 20: { o.to = c.to; o.want = pts(in.swaths, ref); auto r = Transform::transformSwathsWithFieldRef(in.swaths, f, c.to); o.got = pts(r, {}); o.text = ser::s(r); o.want_rest = rest(in.swaths); o.got_rest = rest(r); break; }
      case 21: { o.to = c.to; for (auto& s : in.strips) { points(s.getCell().get(), o.want, {}); o.want_rest += s.getName(); }
        auto r = Transform::transformStrips(in.strips, crs, c.to); for (auto& s : r) { points(s.getCell().get(), o.got, {}); o.text += ser::s(s); o.got_rest += s.getName(); } break; }
      case 22: { o.to = c.to; F2CLineString l = in.swaths[0].getPath(); points(l.get(), o.want, ref); auto r = Transform::transform(l, before.getRefPoint(), crs, c.to); points(r.get(), o.got, {}); o.text = ser::s(r); break; }
      case 23: {
        o.to = c.to;
        F2CLinearRing l {before.getRefPoint() + F2CPoint(1, 2)};
        if (before.getField().size()) l = (before.getField() + before.getRefPoint()).getCellBorder(0);
        points(l.get(), o.want, {}); auto r = Transform::transform(l, crs, c.to); points(r.get(), o.got, {}); o.text = ser::s(r); break; }
      default: { o.to = c.to; auto abs = before.getField() + before.getRefPoint(); points(abs.get(), o.want, {}); auto r = Transform::transform(abs, crs, c.to); points(r.get(), o.got, {}); o.text = ser::s(r); break; }
    }
  } catch (const std::exception& e) {
    o.threw = true;
    o.text = "!";
    o.got.clear();
  }
  o.field = f;
  return o;
}
std::string inputsText(const Inputs& in) {
  std::string r = ser::s(in.swaths) + ser::s(in.route) + ser::s(in.path) + ser::s(in.point);
  for (auto& s : in.strips) r += ser::s(s);
  return r;
}
// Planning in one call for a field whose coordinates are longitudes and
// latitudes: the result is the one planned in UTM, every point converted back.
void planned(const Inputs& in) {
  double x = in.lon, y = in.lat, e = 0.0002 + 0.00005 * sim::draw(OPS, 5);
  F2CField f(F2CCells(F2CCell(F2CLinearRing({F2CPoint(x, y), F2CPoint(x + e, y), F2CPoint(x + 1.2 * e, y + e), F2CPoint(x, y + 0.8 * e), F2CPoint(x, y)}))), "small");
  f.setCRS("EPSG:4326");
  if (sim::draw(OPS, 3) == 2) f.setRefPoint(F2CPoint(0.25, 0.5)), f.setField(f.getField() - f.getRefPoint());
  f2c::Options opt;
  opt.hg_alg = sim::draw(OPS, 4) ? f2c::HGAlg::CONST : f2c::HGAlg::NONE;
  opt.hg_swaths = 1 + sim::draw(OPS, 2);
  opt.sg_alg = f2c::SGAlg::GIVEN_ANGLE;
  opt.sg_angle = 0.1 * sim::draw(OPS, 32);
  opt.pp_alg = static_cast<f2c::PPAlg>(sim::draw(OPS, 4));
  F2CRobot robot(1.5, 4.0 + sim::draw(OPS, 4), 0.6, 0.6);
  bool route = sim::draw(OPS, 3);
  const char* name = route ? "planCovRoute" : "planCovPath";
  sim::count(route ? "op.planCovRoute" : "op.planCovPath");
  std::string before = ser::s(f);
  auto plan = [&](F2CField& g, std::vector<P3>& got) -> std::string {
    try {
      if (route) { F2CRoute r = f2c::planCovRoute(robot, g, opt, false); got = pts(r, {}); return ser::s(r); }
      F2CPath r = f2c::planCovPath(robot, g, opt, false); got = pts(r, {}); return ser::s(r);
    } catch (const std::exception&) { return "!"; }
  };
  F2CField g = deep(f);
  std::vector<P3> got, want;
  sim::crsArm({});
  std::string ref = plan(g, got);
  sim::crsDisarm();
  auto used = sim::crsStats();
  sim::sig(name); sim::sig(ref == "!");
  sim::log("%s: %s", name, sim::brief(ref, 200).c_str());
  if (ser::s(g) != before) sim::violation("inputs", "%s changed the field: %s", name, sim::diff(before, ser::s(g)).c_str());
  // the same, one after the other
  bool local = true;
  std::string from;
  try {
    F2CField u = f.clone();
    Transform::transformToUTM(u);
    from = u.getCRS();
    P3 at = p3(u.getRefPoint());
    if (route) want = pts(f2c::planCovRoute(robot, u.getField(), opt), at);
    else want = pts(f2c::planCovPath(robot, u.getField(), opt), at);
  } catch (const std::exception&) { local = false; }
  if (local != (ref != "!")) sim::violation(local ? "refused" : "unreported", "%s in longitudes and latitudes %s, but %s in UTM", name, local ? "threw" : "returned", local ? "returns" : "throws");
  if (local) {
    if (!convert(from, "EPSG:4326", want)) sim::violation("label", "planning in <%s>", from.c_str());
    // (a path also ends where its last state does)
    if (!route && got.size() == want.size() + 1) got.pop_back();
    std::string d = cmp(want, got, route ? 1e-8 : 1e-7);
    if (!d.empty()) sim::violation("coordinates", "%s in longitudes and latitudes: %s", name, d.c_str());
  }
  for (int a = 0, n = 1 + sim::draw(FAULT, 3); a < n; ++a) {
    sim::CrsPlan p;
    const char* what = "";
    switch (sim::draw(FAULT, 4)) {
      case 0: if (!used.imports) continue; p.fail_import = 1 + sim::draw(FAULT, used.imports); what = "lookup"; break;
      case 1: if (!used.created) continue; p.fail_create = 1 + sim::draw(FAULT, used.created); what = "creation"; break;
      default: if (!used.points) continue; p.fail_point = sim::draw(FAULT, used.points); p.fail_points = sim::draw(FAULT, 3) == 2 ? 1000000 : 1; what = "point";
    }
    F2CField h = deep(f);
    sim::crsArm(p);
    std::vector<P3> v;
    std::string r = plan(h, v);
    sim::crsDisarm();
    auto st = sim::crsStats();
    sim::count("fault.crs_lookup", st.import_failed); sim::count("fault.crs_creation", st.create_failed); sim::count("fault.crs_point", st.point_failed);
    sim::log("  failing %s: %s", what, r == "!" ? "threw" : "returned");
    if (st.import_failed + st.create_failed + st.point_failed == 0) continue;
    sim::nontrivial();
    if (r != "!" && r != ref) sim::violation("unreported", "%s returned a wrong result although a %s failed: %s", name, what, sim::diff(ref, r).c_str());
    if (ser::s(h) != before) sim::violation("half-applied", "%s with a failing %s changed the field: %s", name, what, sim::diff(before, ser::s(h)).c_str());
    std::string again = plan(h, v);
    if (again != ref) sim::violation("retry", "%s repeated after a failing %s: %s", name, what, sim::diff(ref, again).c_str());
  }
}
void quiet(CPLErr, CPLErrorNum, const char*) {}
}  // namespace

// Lookups in PROJ's database are slow: the usual systems once per worker.
void propertyInit() {
  CPLSetErrorHandler(quiet);
  std::vector<std::string> l {"EPSG:4326", "EPSG:4258", "EPSG:28992", "EPSG:3857"};
  for (const char* d : {"WGS84", "ETRS89", "etrs89"}) for (double lon : {4.5, 6.1}) l.push_back(utmLabel(lon, 52, d));
  for (auto& a : l) for (auto& b : l) ct(a, b);
}

void propertyRun() {
  CPLSetErrorHandler(quiet);
  Inputs in = make();
  F2CField f = in.field;
  if (sim::draw(OPS, 6) == 5) f.setCRS(sim::draw(OPS, 2) ? "" : kUnknown[sim::draw(OPS, 8)]);
  if (sim::draw(OPS, 8) == 7) f.setPrevCRS(kUnknown[sim::draw(OPS, 8)]);
  if (sim::draw(OPS, 10) == 9) {  // a coordinate that no system can hold
    double bad = sim::draw(OPS, 2) ? HUGE_VAL : 1e7;  // GDAL needs forever to wrap 1e30
    switch (sim::draw(OPS, 4)) {
      case 0: if (in.path.size()) in.path[sim::draw(OPS, in.path.size())].point = F2CPoint(bad, bad); break;
      case 1: { F2CLineString l; l.addPoint(0, 0); l.addPoint(bad, bad); in.swaths[in.swaths.size() - 1].setPath(l); break; }
      case 2: in.point = F2CPoint(bad, bad); break;
      default: {
        F2CCells c = f.getField().clone();
        F2CCell k; k.addRing(F2CLinearRing({F2CPoint(0, 0), F2CPoint(1, 0), F2CPoint(bad, bad), F2CPoint(0, 0)}));
        c.addGeometry(k); f.setField(c);
      }
    }
    sim::count("fault.impossible_coordinate");
  }
  if (sim::draw(OPS, 12) == 11) { planned(in); return; }
  std::string in0 = inputsText(in);
  sim::log("field %s", sim::brief(ser::s(f), 400).c_str());
  int steps = 1 + sim::draw(OPS, 5);
  for (int i = 0; i < steps; ++i) {
    Call c;
    c.kind = sim::draw(OPS, 3) == 0 ? sim::draw(OPS, 3) : sim::draw(OPS, 24);
    c.flag = sim::draw(OPS, 2);
    c.to = sim::draw(OPS, 7) == 6 ? kUnknown[sim::draw(OPS, 8)] : pickCrs(in.lon, in.lat);
    sim::count((std::string("op.") + kName[c.kind]).c_str());
    std::string before = ser::s(f);
    // without failures, counting the services used
    F2CField g = deep(f);
    sim::crsArm({});
    Out ref = call(c, in, g);
    sim::crsDisarm();
    auto used = sim::crsStats();
    sim::log("%s %s to %s: %s", kName[c.kind], f.getCRS().c_str(), ref.to.c_str(), ref.threw ? "threw" : "returned");
    sim::sig(kName[c.kind]); sim::sig(f.getCRS() + ">" + ref.to + (ref.threw ? "!" : ""));
    std::string after = ser::s(g);
    if (ref.threw && after != before) sim::violation("half-applied", "%s (%s to %s) threw and changed the field: %s", kName[c.kind], f.getCRS().c_str(), ref.to.c_str(), sim::diff(before, after).c_str());
    if (!ref.threw && c.kind > 2 && after != before) sim::violation("inputs", "%s changed the field: %s", kName[c.kind], sim::diff(before, after).c_str());
    // what should have come out
    {
      bool ok = true;
      std::vector<P3> w = ref.want;
      if (c.kind == 1) {
        bool geo = f.getCRS().empty() || known(f.getCRS(), "EPSG:4326");
        if (!ref.threw) {
          ok = geo && convert(ref.from, ref.to, w);
          std::vector<P3> first {ref.want.empty() ? P3() : ref.want[0]};
          if (ok && convert(ref.from, "EPSG:4326", first)) {
            std::string a = utmLabel(first[0].x, first[0].y, "WGS84"), b = utmLabel(first[0].x, first[0].y, "ETRS89");
            if (ref.to != a && ref.to != b) sim::violation("label", "transformToUTM at %f %f labelled %s", first[0].x, first[0].y, ref.to.c_str());
          }
        } else {
          // it has to work for known systems and convertible coordinates
          std::vector<P3> v = ref.want;
          if (geo && !f.getCRS().empty() && convert(f.getCRS(), "EPSG:4326", v) && convert("EPSG:4326", utmLabel(in.lon, in.lat, "WGS84"), v))
            sim::violation("refused", "transformToUTM of a field in %s threw", f.getCRS().c_str());
          ok = false;
        }
      } else if (c.kind == 6 || c.kind == 15) {
        // an empty path needs no conversion
        ok = w.empty() || convert(ref.from, ref.to, w);
      } else {
        ok = known(ref.from, ref.to) && convert(ref.from, ref.to, w);
      }
      if (!ok && !ref.threw) sim::violation("unreported", "%s from <%s> to <%s> is not possible but returned: %s", kName[c.kind], ref.from.c_str(), ref.to.c_str(), sim::brief(ref.text, 300).c_str());
      if (ok && ref.threw) sim::violation("refused", "%s from <%s> to <%s> threw", kName[c.kind], ref.from.c_str(), ref.to.c_str());
      if (ok) {
        std::string d = cmp(w, ref.got, tolerance(ref.from, ref.to));
        if (!d.empty()) sim::violation("coordinates", "%s from <%s> to <%s>: %s", kName[c.kind], ref.from.c_str(), ref.to.c_str(), d.c_str());
        if (ref.want_rest != ref.got_rest) sim::violation("attributes", "%s from <%s> to <%s>: expected %s got %s", kName[c.kind], ref.from.c_str(), ref.to.c_str(), ref.want_rest.c_str(), ref.got_rest.c_str());
        if (c.kind <= 2 && g.getId() != f.getId()) sim::violation("attributes", "%s changed the id", kName[c.kind]);
      } else sim::nontrivial();
    }
    // with failures
    int attempts = sim::draw(FAULT, 3);
    for (int a = 0; a < attempts; ++a) {
      sim::CrsPlan plan;
      const char* what = "";
      switch (sim::draw(FAULT, 4)) {
        case 0: if (!used.imports) continue; plan.fail_import = 1 + sim::draw(FAULT, used.imports); what = "lookup"; break;
        case 1: if (!used.created) continue; plan.fail_create = 1 + sim::draw(FAULT, used.created); what = "creation"; break;
        default: if (!used.points) continue; plan.fail_point = sim::draw(FAULT, used.points); plan.fail_points = sim::draw(FAULT, 3) == 2 ? 1000000 : 1; what = "point";
      }
      F2CField h = deep(f);
      sim::crsArm(plan);
      Out o = call(c, in, h);
      sim::crsDisarm();
      auto st = sim::crsStats();
      sim::count("fault.crs_lookup", st.import_failed); sim::count("fault.crs_creation", st.create_failed); sim::count("fault.crs_point", st.point_failed);
      sim::log("  failing %s: %s", what, o.threw ? "threw" : "returned");
      sim::sig(what); sim::sig(plan.fail_import + plan.fail_create * 10 + (plan.fail_point + 1) * 100);
      if (st.import_failed + st.create_failed + st.point_failed == 0) continue;
      sim::nontrivial();
      if (!o.threw && o.text != ref.text) sim::violation("unreported", "%s from <%s> to <%s> returned a wrong result although a %s failed: %s", kName[c.kind], ref.from.c_str(), ref.to.c_str(), what, sim::diff(ref.text, o.text).c_str());
      std::string t = ser::s(h);
      if (o.threw || c.kind > 2) {
        if (t != before) sim::violation("half-applied", "%s (%s to %s) %s with a failing %s and changed the field: %s", kName[c.kind], f.getCRS().c_str(), ref.to.c_str(), o.threw ? "threw" : "returned", what, sim::diff(before, t).c_str());
      }
      // and again
      Out p = call(c, in, h);
      if (o.threw && p.text != ref.text) sim::violation("retry", "%s repeated after a failing %s: %s", kName[c.kind], what, sim::diff(ref.text, p.text).c_str());
    }
    if (inputsText(in) != in0) sim::violation("inputs", "%s changed its inputs: %s", kName[c.kind], sim::diff(in0, inputsText(in)).c_str());
    if (ser::s(f) != before) sim::violation("inputs", "working on a copy changed the field: %s", sim::diff(before, ser::s(f)).c_str());
    if (!ref.threw && c.kind <= 2) f = g;
  }
}
