#include "ops.h"
#include <unistd.h>
#include <cmath>
#include <fstream>
#include <new>
#include <sstream>

using sim::Params;
using ser::s;
using ser::num;

// ------------------------------------------------------------------ callbacks
namespace {
bool g_cb_count = false, g_cb_armed = false;
uint32_t g_cb_kind = 0;
uint64_t g_cb = 0, g_cb_at = 0, g_cb_n = 0, g_cb_failed = 0;
}
void callbackArm(uint64_t k, uint64_t n, uint32_t kind) { g_cb_kind = kind; g_cb_armed = true; g_cb_count = false; g_cb = 0; g_cb_at = k; g_cb_n = n; g_cb_failed = 0; }
uint64_t callbackDisarm() { g_cb_armed = false; return g_cb_failed; }
void callbackCountStart() { g_cb_count = true; g_cb = 0; }
uint64_t callbackCountStop() { g_cb_count = false; return g_cb; }
void callbackPoint() {
  if (!g_cb_count && !g_cb_armed) return;
  ++g_cb;
  if (g_cb_armed && g_cb >= g_cb_at && g_cb < g_cb_at + g_cb_n) {
    ++g_cb_failed;
    switch (g_cb_kind) {
      case 1: throw std::out_of_range("callback failed");
      case 2: throw std::bad_alloc();
      case 3: throw 42;
      case 4: throw std::invalid_argument("callback failed");
      default: throw CallbackFailure();
    }
  }
}

namespace {
// User-supplied objects. Stateless, so they may be shared between threads.
struct UserSG : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  int k {0};
  double computeCost(const F2CSwath& s) override { callbackPoint(); return k & 1 ? s.length() * s.length() : 1.0 + s.length(); }
};
struct UserSGFast : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  bool isFastCompAvailable() const override { return true; }
  double computeCost(double ang, double w, const F2CCell& c) override { callbackPoint(); return std::fabs(std::sin(ang + 0.3)) * c.area() / w; }
};
struct UserRP : f2c::obj::RPObjective {
  using RPObjective::computeCost;
  double computeCost(const F2CPoint& a, const F2CPoint& b) override { callbackPoint(); return std::fabs(a.getX() - b.getX()) + std::fabs(a.getY() - b.getY()); }
};
struct UserTurn : f2c::pp::TurningBase {
  F2CPath createSimpleTurn(const F2CRobot& robot, double dist, double a0, double a1) override {
    callbackPoint();
    F2CPath p;
    int n = 5;
    for (int i = 0; i <= n; ++i) {
      f2c::types::PathState st;
      double u = static_cast<double>(i) / n;
      st.point = F2CPoint(dist * u, u * (1 - u) * std::sin(a0) * 4);
      st.angle = F2CPoint::mod_2pi(a0 + (a1 - a0) * u);
      st.velocity = robot.getTurnVel();
      st.len = i < n ? dist / n : 0;
      st.type = f2c::types::PathSectionType::TURN;
      p.addState(st);
    }
    return p;
  }
};
struct UserOrder : f2c::rp::SingleCellSwathsOrderBase {
  void sortSwaths(F2CSwaths& sw) const override { callbackPoint(); if (sw.size() > 2) std::swap(sw[0], sw[1]); }
};
struct UserDecomp : f2c::decomp::DecompositionBase {
  F2CMultiLineString genSplitLines(const F2CCells& c, const f2c::obj::DecompObjective&) override {
    callbackPoint();
    F2CMultiLineString l;
    double x = 0.5 * (c.getDimMinX() + c.getDimMaxX());
    l.addGeometry(F2CLineString(F2CPoint(x, c.getDimMinY() - 5), F2CPoint(x, c.getDimMaxY() + 5)));
    return l;
  }
};

F2CLinearRing starRing(Params& p, double cx, double cy, double r, int n, bool smooth) {
  F2CLinearRing ring;
  double off = 0.1 * p.draw(60);
  F2CPoint first;
  for (int i = 0; i < n; ++i) {
    double a = off + 2 * M_PI * i / n;
    double rr = smooth ? r : r * (0.45 + 0.05 * p.draw(12));
    // a grid keeps the numbers short
    F2CPoint q(std::round((cx + rr * std::cos(a)) * 4) / 4, std::round((cy + rr * std::sin(a)) * 4) / 4);
    if (i == 0) first = q;
    ring.addPoint(q);
  }
  ring.addPoint(first);
  return ring;
}

F2CCell makeCell(Params& p, double cx, double cy) {
  double size = 8.0 + p.draw(25);
  F2CCell cell;
  switch (p.draw(5)) {
    case 0: {  // rectangle
      double h = 5.0 + p.draw(20);
      cell.addRing(F2CLinearRing({F2CPoint(cx, cy), F2CPoint(cx + size, cy), F2CPoint(cx + size, cy + h),
          F2CPoint(cx, cy + h), F2CPoint(cx, cy)}));
      break;
    }
    case 1: {  // L shape
      double a = size * (0.3 + 0.05 * p.draw(9)), b = size * (0.3 + 0.05 * p.draw(9));
      cell.addRing(F2CLinearRing({F2CPoint(cx, cy), F2CPoint(cx + size, cy), F2CPoint(cx + size, cy + b),
          F2CPoint(cx + a, cy + b), F2CPoint(cx + a, cy + size), F2CPoint(cx, cy + size), F2CPoint(cx, cy)}));
      break;
    }
    case 2:  // regular
      cell.addRing(starRing(p, cx, cy, size, 3 + p.draw(6), true));
      break;
    case 3:  // star shaped
      cell.addRing(starRing(p, cx, cy, size, 4 + p.draw(7), false));
      break;
    default: {  // with a hole
      cell.addRing(starRing(p, cx, cy, size, 5 + p.draw(4), true));
      cell.addRing(starRing(p, cx, cy, size * 0.25, 3 + p.draw(3), true));
    }
  }
  return cell;
}

F2CSwaths makeSwaths(Params& p, double x, double y, double w, int n) {
  F2CSwaths r;
  for (int i = 0; i < n; ++i) {
    double yy = y + i * w, len = 4.0 + p.draw(30);
    bool inv = p.draw(3) == 1;
    F2CLineString l;
    l.addPoint(inv ? x + len : x, yy);
    if (p.draw(4) == 1) l.addPoint(x + 0.5 * len, yy + 0.25 * w);
    l.addPoint(inv ? x : x + len, yy);
    r.emplace_back(l, w, i, p.draw(5) == 1 ? f2c::types::SwathType::HEADLAND : f2c::types::SwathType::MAINLAND);
  }
  return r;
}
}  // namespace

// Values that are the same when rounded
const double kNear[] = {0, 1e-3, 1e-5, 1e-7, 1e-10};
// The same cell elsewhere or turned over, or nearly the same: as large, as long, with as many points.
static F2CCell placed(const F2CCell& c, int how) {
  F2CCell r;
  for (auto&& ring : c) {
    std::vector<F2CPoint> v;
    for (auto&& q : ring) {
      double x = q.getX(), y = q.getY();
      switch (how) {
        case 1: v.emplace_back(x + 7.5, y - 3.25); break;
        case 2: v.emplace_back(-x, y); break;
        case 3: v.emplace_back(y, x); break;
        default: v.emplace_back(x, y);
      }
    }
    if (how == 4) std::reverse(v.begin(), v.end());
    if (how == 5) { v.pop_back(); std::rotate(v.begin(), v.begin() + 1, v.end()); v.push_back(v[0]); }
    if (how >= 6) v[v.size() / 2] = v[v.size() / 2] + F2CPoint(how == 6 ? 3e-5 : 2e-8, how == 6 ? -2e-5 : 3e-8);
    F2CLinearRing l;
    for (auto& q : v) l.addPoint(q);
    r.addRing(l);
  }
  return r;
}
World makeWorld(Params& p) {
  World w;
  const int place = p.draw(12), near = p.draw(10);
  w.width = 1.0 + 0.25 * p.draw(16);
  w.angle = 0.1 * p.draw(64);
  if (near) (near % 2 ? w.width : w.angle) += kNear[near / 2];
  w.robot = F2CRobot(w.width + 0.5, w.width, 0.2 + 0.1 * p.draw(9), 0.1 + 0.1 * p.draw(6));
  w.robot.setName("r" + std::to_string(p.draw(10)));
  w.robot.setCruiseVel(0.5 + 0.25 * p.draw(8));
  w.robot.setTurnVel(0.25 + 0.25 * p.draw(4));
  w.cell = makeCell(p, 0, 0);
  if (place >= 1 && place <= 7) w.cell = placed(w.cell, place);
  w.cells.addGeometry(w.cell);
  int extra = p.draw(3);
  for (int i = 0; i < extra; ++i) w.cells.addGeometry(makeCell(p, 100.0 * (i + 1), 10.0 * p.draw(5)));
  w.other.addGeometry(makeCell(p, 5.0, 3.0));
  w.field = F2CField(w.cells, "f" + std::to_string(p.draw(9)));
  {
    // a field given in degrees
    F2CCell g;
    double lon = 5.0 + p.draw(3), lat = 45.0 + p.draw(8), e = 0.001 + 0.0005 * p.draw(6);
    g.addRing(F2CLinearRing({F2CPoint(lon, lat), F2CPoint(lon + e, lat), F2CPoint(lon + 1.2 * e, lat + e), F2CPoint(lon, lat + 0.8 * e), F2CPoint(lon, lat)}));
    w.geo_field = F2CField(F2CCells(g), "geo");
    w.geo_field.setCRS(p.draw(2) ? "EPSG:4326" : "EPSG:4258");
  }
  int ns = 2 + p.draw(7);
  w.swaths = makeSwaths(p, -3.0, -4.0, w.width, ns);
  int nc = 1 + p.draw(2);
  for (int i = 0; i < nc; ++i) w.by_cells.emplace_back(makeSwaths(p, 40.0 * i, 2.0 * i, w.width, 1 + p.draw(3)));
  for (size_t i = 0; i < w.by_cells.size(); ++i) {
    F2CMultiPoint c;
    int k = 2 + p.draw(3);
    for (int j = 0; j < k; ++j) c.addPoint(3.0 * p.draw(20), 2.0 * p.draw(20));
    w.route.addConnection(c);
    w.route.addSwaths(w.by_cells[i]);
  }
  int np = 3 + p.draw(6);
  double x = 0, y = 0;
  for (int i = 0; i < np; ++i) {
    double a = 0.2 * p.draw(10), l = 1.0 + 0.5 * p.draw(6);
    w.path.addState(F2CPoint(x, y), a, l, f2c::types::PathDirection::FORWARD,
        p.draw(2) ? f2c::types::PathSectionType::TURN : f2c::types::PathSectionType::SWATH, 0.5 + 0.5 * p.draw(3));
    x += l * std::cos(a); y += l * std::sin(a);
  }
  w.ring = starRing(p, 2, 3, 6, 5, false);
  for (int i = 0, n = 2 + p.draw(5); i < n; ++i) w.line.addPoint(i * 3.0, 1.5 * p.draw(12));
  for (int i = 0, n = 1 + p.draw(4); i < n; ++i)
    w.lines.addGeometry(F2CLineString(F2CPoint(-20, 2.0 * i + 0.1 * p.draw(10)), F2CPoint(30, 2.0 * i + 0.5 * p.draw(12))));
  for (int i = 0, n = 2 + p.draw(5); i < n; ++i) w.mp.addPoint(0.5 * p.draw(40), 0.5 * p.draw(40));
  for (int i = 0, n = 1 + p.draw(3); i < n; ++i) {
    F2CStrip st;
    st.setName("s" + std::to_string(p.draw(100)));
    st.setCell(makeCell(p, 1.0 * i, 2.0));
    w.strips.emplace_back(st);
  }
  int nn = 4 + p.draw(5);
  for (int i = 0; i < nn; ++i) w.nodes.emplace_back(10.0 * i, 3.0 * p.draw(7));
  for (int i = 0; i < nn; ++i) {
    w.graph.addEdge(w.nodes[i], w.nodes[(i + 1) % nn], 10 + p.draw(50));
    w.graph.addEdge(w.nodes[i], w.nodes[p.draw(nn)], 5 + p.draw(90));
  }
  int k = 4 + p.draw(6);
  double t = 0;
  for (int i = 0; i < k; ++i) { w.sx.push_back(t); w.sy.push_back(0.5 * p.draw(30)); t += 0.5 + 0.25 * p.draw(4); }
  return w;
}

std::string nothingText(const Nothing& n) {
  return s(n.cell) + s(n.cells) + s(n.field) + s(n.swaths) + s(n.by) + s(n.route) + s(n.path) + s(n.ring) + s(n.line) + s(n.lines) + s(n.mp) + s(n.strip) + s(n.swath);
}
std::string keptText(const Tools& t) {
  auto& k = t.kept;
  auto turn = [](const f2c::pp::TurningBase& b) { return num(b.getDiscretization()) + (b.getUsingCache() ? "c" : "-"); };
  return " [" + num(k.bf.getStepAngle()) + (k.bf.getAllowOverlap() ? "o" : "-") + num(k.trap.getSplitAngle()) + " " + num(k.bous.getSplitAngle()) +
      " " + turn(k.dubins) + turn(k.dubins_cc) + turn(k.rs) + " " + turn(k.rs_hc) + "]";
}
std::string worldText(const World& w) {
  std::string r = s(w.robot) + s(w.cell) + s(w.cells) + s(w.other) + s(w.field) + s(w.geo_field) + s(w.swaths) +
    s(w.by_cells) + s(w.route) + s(w.path) + s(w.ring) + s(w.line) + s(w.lines) + s(w.mp);
  for (auto& x : w.strips) r += s(x);
  r += nothingText(w.none) + s(w.nodes);
  for (auto& n : w.nodes) {
    auto id = w.graph.nodeToIndex(n);
    r += std::to_string(id) + ":";
    for (auto& m : w.nodes) r += std::to_string(w.graph.getCostFromEdge(id, w.graph.nodeToIndex(m))) + ",";
  }
  for (auto d : w.sx) r += num(d) + ",";
  for (auto d : w.sy) r += num(d) + ",";
  return r;
}

// ------------------------------------------------------------------ operations
namespace {
typedef const World& W;
typedef Params& P;
typedef Tools& T;

double ang(P p) { double a = 0.1 * p.draw(63); return a + kNear[p.draw(9) / 2]; }
F2CPoint pt(P p) { return F2CPoint(-10 + 0.5 * p.draw(80), -10 + 0.5 * p.draw(80)); }
std::string b(bool x) { return x ? "T" : "F"; }

std::unique_ptr<f2c::obj::SGObjective> sgObj(P p) {
  switch (p.draw(7)) {
    case 0: return std::make_unique<f2c::obj::NSwath>();
    case 1: return std::make_unique<f2c::obj::NSwathModified>();
    case 2: return std::make_unique<f2c::obj::SwathLength>();
    case 3: return std::make_unique<f2c::obj::FieldCoverage>();
    case 4: return std::make_unique<f2c::obj::Overlaps>();
    case 5: { auto o = std::make_unique<UserSG>(); o->k = p.draw(2); return o; }
    default: return std::make_unique<UserSGFast>();
  }
}
f2c::pp::TurningBase& turner(P p, T t) {
  switch (p.draw(4)) {
    case 0: return t.dubins;
    case 1: return t.dubins_cc;
    case 2: return t.rs_hc;
    default: return t.rs;
  }
}
// Settings of the one-call planner.
f2c::Options planOptions(P p) {
  f2c::Options o;
  o.hg_alg = p.draw(4) ? f2c::HGAlg::CONST : f2c::HGAlg::NONE;
  o.hg_swaths = 1 + p.draw(3);
  o.sg_alg = p.draw(4) == 3 ? f2c::SGAlg::BRUTE_FORCE : f2c::SGAlg::GIVEN_ANGLE;
  o.sg_obj = static_cast<f2c::SGObjFunc>(p.draw(5));
  o.sg_angle = ang(p);
  o.pp_alg = static_cast<f2c::PPAlg>(p.draw(4));
  return o;
}
std::string costs(const std::vector<double>& v) { std::string r; for (auto d : v) r += num(d) + " "; return r; }

// A file of this call's own: its name is in no result.
std::string fileName(P& p, const char* what) {
  char b[64];
  snprintf(b, sizeof b, "%s_%012lx", what, reinterpret_cast<unsigned long>(&p));
  return sim::scratchName(b);
}
void writeText(const std::string& f, const std::string& text) {
  FILE* o = fopen(f.c_str(), "w");
  if (!o || fwrite(text.data(), 1, text.size(), o) != text.size() || fclose(o)) sim::harnessError("cannot write %s", f.c_str());
}
const std::vector<Op> kOps = {
  // ---- headlands
  {"hg.headlands", kGeos, [](W w, P p, T t) { return s(t.hl.generateHeadlands(w.cells, 0.25 + 0.25 * p.draw(10))); }},
  {"hg.area", kGeos, [](W w, P p, T t) { return s(t.hl.generateHeadlandArea(w.cells, 0.25 * w.width, 1 + p.draw(3))); }},
  {"hg.swaths", kGeos, [](W w, P p, T t) {
    std::string r; int n = 1 + p.draw(3); bool dir = p.draw(2);
    for (auto& c : t.hl.generateHeadlandSwaths(w.cells, 0.3 * w.width, n, dir)) r += s(c) + "\n";
    return r; }},
  // ---- decomposition
  {"decomp.trap", kGeos | kHeavy, [](W w, P p, T t) { t.trap.setSplitAngle(0.2 * p.draw(16)); return s(t.trap.decompose(F2CCells(w.cell))); }},
  {"decomp.bous", kGeos | kHeavy, [](W w, P p, T t) { t.bous.setSplitAngle(0.2 * p.draw(16)); return s(t.bous.decompose(F2CCells(w.cell))); }},
  {"decomp.traplines", kGeos | kHeavy, [](W w, P p, T t) { t.trap.setSplitAngle(0.2 * p.draw(16)); return s(t.trap.genSplitLines(w.cells)); }},
  {"decomp.bouslines", kGeos | kHeavy, [](W w, P p, T t) { t.bous.setSplitAngle(0.2 * p.draw(16)); return s(t.bous.genSplitLines(w.cells)); }},
  {"decomp.user", kGeos | kCallback, [](W w, P, T) { UserDecomp d; return s(d.decompose(w.cells)); }},
  // ---- swaths
  {"sg.angle", kGeos, [](W w, P p, T t) { t.bf.setAllowOverlap(p.draw(2)); return s(t.bf.generateSwaths(w.angle, w.width, w.cell)); }},
  {"sg.angle_cells", kGeos, [](W w, P p, T t) { t.bf.setAllowOverlap(p.draw(2)); return s(t.bf.generateSwaths(w.angle, w.width, w.cells)); }},
  {"sg.best", kGeos | kCallback | kHeavy, [](W w, P p, T t) {
    t.bf.setStepAngle(0.5 + 0.1 * p.draw(12)); t.bf.setAllowOverlap(p.draw(2));
    auto o = sgObj(p);
    return num(t.bf.computeBestAngle(*o, w.width * 1.5, w.cell)) + s(t.bf.generateBestSwaths(*o, w.width * 1.5, w.cell)); }},
  {"sg.best_cells", kGeos | kCallback | kHeavy, [](W w, P p, T t) {
    t.bf.setStepAngle(0.9 + 0.1 * p.draw(12)); t.bf.setAllowOverlap(false);
    auto o = sgObj(p);
    return s(t.bf.generateBestSwaths(*o, w.width * 2, w.cells)); }},
  {"sg.costs", kGeos | kCallback, [](W w, P p, T) {
    auto o = sgObj(p);
    return costs({o->computeCost(w.cell, w.swaths), o->computeCost(w.cells, w.swaths), o->computeCost(w.swaths),
        o->computeCost(w.swaths[0]), o->computeCost(w.by_cells), o->computeCost(w.cell, w.by_cells), o->computeCost(w.cells, w.by_cells),
        o->computeCostWithMinimizingSign(w.cell, w.swaths), o->computeCost(w.cells)}); }},
  {"sg.fastcost", 0, [](W w, P p, T) { f2c::obj::NSwathModified o; return num(o.computeCost(0.1 * p.draw(70), w.width, w.cell)); }},
  {"sg.kept", kGeos, [](W w, P p, T t) {
    std::string r;
    for (int i = 0; i < 2; ++i) r += s(t.kept.bf.generateSwaths(ang(p), w.width * (p.draw(2) ? 1 : 1 + p.draw(30)), w.cells)) + keptText(t) + "\n";
    return r; }},
  {"decomp.kept", kGeos | kHeavy, [](W w, P p, T t) {
    std::string r;
    for (int i = 0; i < 2; ++i) r += (p.draw(2) ? s(t.kept.trap.decompose(F2CCells(w.cell))) : s(t.kept.bous.genSplitLines(w.cells))) + keptText(t) + "\n";
    return r; }},
  {"turn.kept", kTools, [](W w, P p, T t) {
    std::string r;
    f2c::pp::TurningBase* a[] = {&t.kept.dubins, &t.kept.dubins_cc, &t.kept.rs, &t.kept.rs_hc};
    for (int i = 0; i < 3; ++i)
      r += s(a[p.draw(3)]->createTurn(w.robot, F2CPoint(p.draw(9), p.draw(9)), 0.3 * p.draw(20), F2CPoint(10.0 + p.draw(9), p.draw(9)), 0.3 * p.draw(20))) + keptText(t) + "\n";
    return r; }},
  {"hg.cost", kGeos, [](W w, P p, T) {
    f2c::obj::RemArea o; auto in = F2CCells::buffer(w.cell, -0.5 - 0.25 * p.draw(4));
    return costs({o.computeCost(w.cell, in), o.computeCostWithMinimizingSign(w.cells, in)}); }},
  // ---- orders
  {"rp.order", kCallback, [](W w, P p, T) {
    uint32_t v = p.draw(4);
    switch (p.draw(5)) {
      case 0: return s(f2c::rp::BoustrophedonOrder().genSortedSwaths(w.swaths, v));
      case 1: return s(f2c::rp::SnakeOrder().genSortedSwaths(w.swaths, v));
      case 2: return s(f2c::rp::SpiralOrder(2 + p.draw(5)).genSortedSwaths(w.swaths, v));
      case 3: {
        std::vector<size_t> o;
        for (size_t i = 0; i < w.swaths.size(); ++i) o.push_back(w.swaths.size() - 1 - i);
        std::rotate(o.begin(), o.begin() + p.draw(o.size()), o.end());
        f2c::rp::CustomOrder c(o);
        return s(c.genSortedSwaths(w.swaths, v));
      }
      default: return s(UserOrder().genSortedSwaths(w.swaths, v));
    } }},
  {"rp.customfail", 0, [](W w, P p, T) {
    std::vector<size_t> o(w.swaths.size() + p.draw(2), 0);
    return s(f2c::rp::CustomOrder(o).genSortedSwaths(w.swaths)); }},
  // ---- route objectives
  {"rp.costs", kCallback, [](W w, P p, T) {
    f2c::obj::DirectDistPathObj d; UserRP u;
    f2c::obj::RPObjective& o = p.draw(2) ? static_cast<f2c::obj::RPObjective&>(d) : u;
    return costs({o.computeCost(w.swaths), o.computeCost(w.route), o.computeCost(w.mp), o.computeCost(w.swaths[0], w.swaths[1]),
        o.computeCost(w.swaths, w.mp), o.computeCost(w.mp, w.swaths), o.computeCost(w.nodes)}); }},
  {"rp.turncost", kCallback, [](W w, P, T) {
    f2c::obj::CompleteTurnPathObj<UserTurn> o(w.robot);
    return costs({o.computeCost(w.swaths), o.computeCost(w.swaths[0], w.swaths[1])}); }},
  // ---- routes
  {"rp.shortest", kHeavy, [](W w, P p, T t) {
    auto rp = t.rp;  // the point stays with the planner
    if (p.draw(2)) rp.setStartAndEndPoint(pt(p));
    auto g = rp.createShortestGraph(w.cells, w.by_cells, 1e-4);
    std::string r = std::to_string(g.numNodes()) + " " + std::to_string(g.numEdges()) + " ";
    for (size_t i = 0; i < g.numNodes(); ++i) r += s(g.indexToNode(i));
    auto a = w.by_cells.getSwath(0).startPoint();
    auto z = w.by_cells.getSwath(w.by_cells.sizeTotal() - 1).endPoint();
    return r + s(g.shortestPath(a, z)) + std::to_string(g.shortestPathCost(a, z)); }},
  {"rp.coverage", kHeavy, [](W w, P p, T t) {
    auto g = t.rp.createShortestGraph(w.cells, w.by_cells, 1e-4);
    auto c = t.rp.createCoverageGraph(w.cells, w.by_cells, g, 1e-4, p.draw(2));
    std::string r = std::to_string(c.numNodes()) + " " + std::to_string(c.numEdges()) + " ";
    for (size_t i = 0; i < c.numNodes(); ++i) for (size_t j = 0; j < c.numNodes(); ++j) r += std::to_string(c.getCostFromEdge(i, j)) + ",";
    return r; }},
  {"route.add", 0, [](W w, P p, T) {
    auto r = w.route.clone();
    r.addSwath(w.swaths[0]); r.addConnection(pt(p)); r.addConnectedSwaths(w.mp, w.swaths); r.addConnection(w.nodes);
    r.addSwaths();
    return s(r) + num(r.length()) + s(r.asLineString()) + s(r.startPoint()) + s(r.endPoint()) + b(r.isEmpty()); }},
  {"route.addgraph", 0, [](W w, P p, T) {
    F2CRoute r; F2CGraph2D g;
    for (size_t i = 0; i + 1 < w.swaths.size(); ++i) { g.addEdge(w.swaths[i].startPoint(), w.swaths[i].endPoint()); g.addEdge(w.swaths[i].endPoint(), w.swaths[i + 1].startPoint()); }
    for (size_t i = 0; i + 1 < w.swaths.size(); ++i) r.addSwath(w.swaths[i], g);
    return s(r) + num(r.length()); }},
  {"route.length", 0, [](W w, P, T) { return num(w.route.length()) + s(w.route.asLineString()) + s(w.route.clone()) + s(w.route.startPoint()) + s(w.route.endPoint()); }},
  // ---- turns and paths
  {"pp.turn", kTools, [](W w, P p, T t) {
    auto& tu = turner(p, t);
    return s(tu.createTurn(w.robot, pt(p), 0.1 * p.draw(63), pt(p), 0.1 * p.draw(63))); }},
  {"pp.userturn", kCallback, [](W w, P p, T) {
    UserTurn tu; std::string r;
    F2CPoint a = pt(p), c = pt(p); double x = 0.1 * p.draw(63), y = 0.1 * p.draw(63);
    for (int i = 0; i < 2; ++i) r += s(tu.createTurn(w.robot, a, x, c, y));
    return r; }},
  {"pp.swaths", kTools, [](W w, P p, T t) { return s(f2c::pp::PathPlanning::planPath(w.robot, w.swaths, turner(p, t))); }},
  {"pp.route", kTools | kHeavy, [](W w, P p, T t) { return s(f2c::pp::PathPlanning::planPath(w.robot, w.route, turner(p, t))); }},
  {"pp.userroute", kCallback, [](W w, P, T) { UserTurn tu; return s(f2c::pp::PathPlanning::planPath(w.robot, w.route, tu)); }},
  {"pp.normal", 0, [](W, P p, T) { return costs(f2c::pp::TurningBase::transformToNormalTurn(pt(p), ang(p), pt(p), ang(p))); }},
  {"path.len", 0, [](W w, P p, T) {
    f2c::obj::PathLength o;
    auto st = w.path.at(0.3 * p.draw(60));
    return costs({w.path.length(), w.path.getTaskTime(), w.path.getDimMinX(), w.path.getDimMaxX(), w.path.getDimMinY(), w.path.getDimMaxY(), o.computeCost(w.path), st.angle, st.len}) +
      s(st.point) + s(w.path.atStart()) + s(w.path.atEnd()) + s(w.path.toLineString()); }},
  {"path.discretize", 0, [](W w, P p, T) { auto c = w.path; c.discretize(0.2 + 0.1 * p.draw(5)); return s(c); }},
  {"path.change", 0, [](W w, P p, T t) {
    if (!t.path) t.path = std::make_shared<F2CPath>(w.path);
    F2CPath& c = *t.path;
    double x = 0.1 * p.draw(20);
    switch (p.draw(6)) {
      case 0: c.discretize(0.2 + x); break;
      case 1: case 2: c.populate(5 + static_cast<int>(20 * x)); break;
      case 3: c.reduce(x); break;
      case 4: c.rotateFromPoint(pt(p), x); break;
      default: c.moveTo(pt(p));
    }
    auto done = std::move(t.path);   // only what failed is repeated
    return s(*done); }},
  {"path.populate", 0, [](W w, P p, T) { auto c = w.path; c.populate(5 + p.draw(60)); c.reduce(0.05 * p.draw(10)); return s(c); }},
  {"path.discswath", 0, [](W w, P p, T) { return s(w.path.discretizeSwath(0.2 + 0.1 * p.draw(9))); }},
  {"path.edit", 0, [](W w, P p, T) {
    auto c = w.path; c.moveTo(pt(p)); c.rotateFromPoint(pt(p), 0.1 * p.draw(40)); c.mirrorX(); c.mirrorY(); c += w.path;
    c.appendSwath(w.swaths[0], 1.5); c.setBackwardDir(); c.setTurnType(); return s(c); }},
  {"path.text", 0, [](W w, P p, T) { return w.path.serializePath(3 + p.draw(10)); }},
  // ---- geometry
  {"cells.bool", kGeos, [](W w, P, T) { return s(w.cells.intersection(w.other)) + s(w.cells.difference(w.other)) + s(w.cells.unionOp(w.other)) + s(w.cells.getCellsInside(w.other)); }},
  {"cells.bool1", kGeos, [](W w, P, T) { F2CCell o = w.other.getGeometry(0); return s(w.cells.intersection(o)) + s(w.cells.difference(o)) + s(w.cells.unionOp(o)) + s(F2CCells::intersection(w.cell, o)); }},
  {"cells.cascade", kGeos, [](W w, P, T) { auto c = w.cells.clone(); for (auto&& o : w.other) c.addGeometry(o); return s(c.unionCascaded()); }},
  {"cells.hull", kGeos, [](W w, P, T) { return s(w.cells.convexHull()) + s(w.cell.convexHull()) + s(F2CCell::convexHull(w.cells)) + s(F2CCell::convexHull(w.mp)); }},
  {"cells.buffer", kGeos, [](W w, P p, T) { double d = 0.25 * (1 + p.draw(6)); return s(w.cells.buffer(d)) + s(w.cells.buffer(-d)) + s(F2CCells::buffer(w.line, d)) + s(F2CCells::buffer(w.line, d, 1)) + s(F2CCells::buffer(w.line, d, -1)); }},
  {"cell.buffer", kGeos, [](W w, P p, T) { double d = 0.25 * (1 + p.draw(6)); return s(F2CCell::buffer(w.cell, d)) + s(F2CCell::buffer(w.line, d)) + s(F2CCell::buffer(pt(p), d)); }},
  {"cell.degenerate", kGeos, [](W w, P p, T) {
    // results that are no polygon
    F2CPoint a = pt(p), c = pt(p);
    F2CCell flat(F2CLinearRing({a, c, a}));
    F2CMultiPoint one; one.addPoint(a);
    switch (p.draw(6)) {
      case 0: return s(flat.convexHull());
      case 1: return s(F2CCell::convexHull(one));
      case 2: return s(F2CCell::convexHull(F2CLineString(a, c)));
      case 3: return s(F2CCell(a.get()));
      case 4: return s(F2CCells(a.get())) + s(F2CCells(w.lines.get())) + s(F2CCells(flat).convexHull());
      default: return s(F2CCell::buffer(w.cell, -100.0));
    } }},
  {"cell.bufferring", kGeos, [](W w, P p, T) { return s(F2CCell::buffer(w.ring, 0.1 + 0.1 * p.draw(4))); }},
  {"cells.split", kGeos, [](W w, P, T) { return s(w.cells.splitByLine(w.lines)) + s(w.cells.splitByLine(w.lines.getGeometry(0))); }},
  {"cells.simplify", kGeos, [](W w, P p, T) { double d = 0.25 * p.draw(12); return s(w.cells.simplify(d)) + s(w.cell.simplify(d)) + s(w.line.simplify(d)); }},
  {"cells.lines", kGeos, [](W w, P p, T) { return s(w.cells.getLinesInside(w.lines)) + s(w.cell.getLinesInside(w.lines)) + s(w.cell.getLinesInside(w.lines.getGeometry(0))) + s(w.cells.getLinesInside(w.line)); }},
  {"cells.untilborder", kGeos, [](W w, P p, T) { auto q = pt(p); double a = ang(p); return s(w.cells.createLineUntilBorder(w.cell.getExteriorRing().getGeometry(0), a)) + s(w.cell.createLineUntilBorder(q, a)); }},
  {"lines.inter", kGeos, [](W w, P, T) { return s(w.lines.intersection(w.cells)) + s(F2CMultiLineString::intersection(w.line, w.cell)) + s(w.lines.intersection(w.cell)); }},
  {"cells.query", 0, [](W w, P p, T) {
    auto q = pt(p);
    return b(w.cells.isPointIn(q)) + b(w.cells.isPointInBorder(q)) + b(w.cell.isPointIn(q)) + b(w.cell.isConvex()) + b(w.cells.isConvex()) +
      s(w.cells.closestPointOnBorderTo(q)) + s(w.cell.closestPointOnBorderTo(q)) + s(w.cells.getCellWherePoint(q)) + num(w.cells.area()) + num(w.cell.area()) +
      s(w.cells.createSemiLongLine(q, w.angle)) + s(w.cell.createStraightLongLine(q, w.angle)); }},
  {"cells.dims", 0, [](W w, P p, T) {
    auto q = pt(p);
    return costs({w.cells.getDimMinX(), w.cells.getDimMaxX(), w.cells.getDimMinY(), w.cells.getDimMaxY(), w.cells.getHeight(), w.cells.getWidth(), w.cells.getMinSafeLength(),
      w.cells.distance(q), q.distance(w.line), w.ring.distance(q)}) + b(w.cells.disjoint(w.other)) + b(w.cells.intersects(w.other)) + b(w.cells.touches(w.other)) + b(w.cells.within(w.other)) + b(w.line.crosses(w.cell)); }},
  {"cells.edit", 0, [](W w, P p, T) {
    auto c = w.cells.clone(); auto k = w.cell.clone();
    k *= 0.5 + 0.25 * p.draw(5); c.setGeometry(p.draw(4), k); c.addGeometry(k); c.addRing(0, w.ring); c *= 2.0; k.setGeometry(p.draw(2), w.ring); k.addRing(w.ring);
    return s(c) + s(k) + s(c + pt(p)) + s(c - pt(p)) + s(pt(p).rotateFromPoint(w.angle, c)); }},
  {"cells.wkt", 0, [](W w, P, T) {
    F2CCells c; c.importFromWkt(w.cells.exportToWkt());
    return s(c) + w.cells.exportToGML() + w.cell.exportToKML() + w.line.exportToJson() + b(c == w.cells) + b(c != w.other); }},
  {"cells.iter", 0, [](W w, P, T) { std::string r; for (auto&& c : w.cells) for (auto&& ring : c) for (auto&& q : ring) r += s(q); F2CCells k = w.cells.clone(); for (auto&& c : k) for (auto&& ring : c) r += s(ring); return r + s(w.cells.back()) + s(w.cells.at(0)) + s(w.cells[0]); }},
  {"ring.ops", 0, [](W w, P p, T) {
    auto r = w.ring.clone(); r.reversePoints(); r *= 1.5; r.setGeometry(p.draw(6), pt(p)); r.addPoint(pt(p)); auto o = r.clone(); o.closeRing();
    return s(r) + s(o) + b(w.ring.isClockwise()) + b(w.ring.isClosed()) + s(w.ring.closestPointTo(pt(p))) + num(w.ring.length()) + s(w.ring.startPoint()) + s(F2CLineString(w.ring)); }},
  {"line.ops", 0, [](W w, P p, T) {
    auto l = w.line.clone(); l.reversePoints(); l *= 2.0; l.setGeometry(p.draw(6), pt(p)); l.addPoint(pt(p));
    return s(l) + costs({w.line.startAngle(), w.line.endAngle(), w.line.length()}) + s(w.line.closestPointTo(pt(p))) + s(w.line.endPoint()) + s(F2CMultiLineString::getLineSegments(w.line)) + s(F2CMultiLineString::getLineSegments(w.ring)) + s(w.line + pt(p)); }},
  {"lines.ops", 0, [](W w, P p, T) {
    auto l = w.lines.clone(); l *= 0.5; l.setGeometry(p.draw(5), w.line); l.addGeometry(w.line); l.addGeometry(w.lines);
    return s(l) + num(l.length()) + std::to_string(l.size()) + s(pt(p).rotateFromPoint(w.angle, l)) + s(l.clone()); }},
  {"mp.ops", 0, [](W w, P p, T) {
    auto m = w.mp.clone(); m.setGeometry(p.draw(m.size()), pt(p)); m.addPoints(w.mp); m *= 3.0; m.addPoint(pt(p));
    return s(m) + costs({w.mp.getInAngle(w.mp.size() - 1), w.mp.getOutAngle(0), w.mp.getPointAngle(1)}) + s(w.mp.getFirstPoint()) + s(w.mp.getLastPoint()); }},
  {"point.ops", 0, [](W w, P p, T) {
    F2CPoint a = pt(p), c = pt(p), d = pt(p), e = pt(p);
    std::ostringstream os; os << a;
    std::vector<F2CPoint> v {a, c, d};
    return s(a + c) + s(a - c) + s(a * 2.0) + num(a * c) + s(a / 3.0) + num(F2CPoint::det(a, c)) + costs({a.getAngleFromPoint(), a.getAngleFromPoints(c), F2CPoint::getAngleFromPoints(a, c, d), a.signedDistance2Segment(c, d)}) +
      s(a.getPointFromAngle(w.angle, 3.0)) + s(a.rotateFromPoint(w.angle, c)) + s(F2CPoint::intersectionOfLines(a, c, d, e)) + s(a.closestPointInSegment(c, d)) + os.str() + s(v + a) + s(v - a) + s(a - v) + s(a.rotateFromPoint(w.angle, v)) + b(a < c) + b(a == c); }},
  {"angle.ops", 0, [](W, P p, T) {
    double x = 0.1 * p.draw(200) - 10, y = 0.1 * p.draw(200) - 10;
    return costs({F2CPoint::mod_2pi(x), F2CPoint::mod(x, 1.5), F2CPoint::getAngContinuity(x, y), F2CPoint::getAngleDiffAbs(x, y), F2CPoint::getAngleAvg(x, y)}) + costs(F2CPoint::getAngContinuity({x, y, x + 3, y - 4})); }},
  // ---- swaths
  {"swath.ops", kGeos, [](W w, P p, T) {
    auto x = w.swaths[p.draw(w.swaths.size())].clone(); auto y = w.swaths[0].clone();
    x.reverse(); x.targetOppositeDirAs(y); y.targetSameDirAs(x); y.moveTo(pt(p)); x.setWidth(1.5);
    return s(x) + s(y) + costs({x.length(), x.area(), x.area(w.cells), x.getInAngle(), x.getOutAngle()}) + s(x.areaCovered()) + s(x.areaCovered(w.cells)) + b(x.hasSameDir(y)) + b(x < y) + b(x == y) + s(x.startPoint()) + s(x.endPoint()); }},
  {"swaths.append", kGeos, [](W w, P, T) { F2CSwaths x; x.append(w.line, w.width); x.append(w.lines, w.cell, w.width); x.append(w.lines, w.cells, w.width, f2c::types::SwathType::HEADLAND); x.append(w.lines, w.width); x.append(w.swaths); return s(x); }},
  {"swaths.edit", 0, [](W w, P p, T) { auto x = w.swaths.clone(); x.sort(); x.reverseDirOddSwaths(); x.reverse(); x.moveTo(pt(p)); return s(x) + s(x.back()) + s(w.swaths.clone()); }},
  {"bycells.ops", 0, [](W w, P p, T) { auto x = w.by_cells.clone(); x.reverse(); x.emplace_back(w.swaths); return s(x) + s(x.flatten()) + std::to_string(x.sizeTotal()) + s(x.getSwath(p.draw(x.sizeTotal()))) + s(x.back()); }},
  // ---- field, robot, strips
  {"field.ops", 0, [](W w, P p, T) {
    F2CField f = w.field.clone(); f.setRefPoint(pt(p)); f.setId("x"); f.setEPSGCoordSystem(4326 + p.draw(5));
    std::string r = s(f) + num(f.area()) + s(f.getCellsAbsPosition()) + std::to_string(f.getEPSGCoordSystem()) + b(f.isCoordSystemEPSG());
    f.setUTMCoordSystem("31N"); r += s(f) + f.getUTMZone() + f.getUTMHemisphere() + f.getUTMDatum() + f.getUTMCoordSystem() + b(f.isCoordSystemUTM());
    return r + s(w.geo_field.clone()) + b(f.isEmpty()); }},
  {"field.crsparse", 0, [](W, P p, T) {
    const char* c[] = {"UTM:31N datum:WGS84", "UTM:4S datum:etrs89", "UTM:29S", "EPSG:4326", "utm:12n datum=etrs89", "", "nothing", "EPSG:28992"};
    std::string k = c[p.draw(8)];
    return F2CField::getUTMCoordSystem(k, "none") + "," + F2CField::getUTMDatum(k) + "," + b(F2CField::isCoordSystemUTM(k)) + b(F2CField::isCoordSystemEPSG(k)) + std::to_string(F2CField::getEPSGCoordSystem(k)) + (F2CField::isCoordSystemUTM(k) ? F2CField::getUTMZone(k) + F2CField::getUTMHemisphere(k) : ""); }},
  {"robot.ops", 0, [](W w, P p, T) {
    F2CRobot r = w.robot; r.setMinTurningRadius(1.0 + p.draw(5)); r.setCovWidth(1 + p.draw(3)); F2CRobot q(2.0 + p.draw(3)); q = r;
    return s(r) + s(q) + num(q.getMinTurningRadius()); }},
  {"strip.ops", 0, [](W w, P, T) { std::string r; for (auto& x : w.strips) { auto c = x.clone(); c.setName("n"); c.getCell() *= 2.0; r += s(c) + s(x); } return r; }},
  // ---- graph
  {"graph.query", kTools, [](W w, P p, T t) {
    if (!t.graph_ready) { t.graph = w.graph; t.graph_ready = true; }
    auto& a = w.nodes[p.draw(w.nodes.size())]; auto& c = w.nodes[p.draw(w.nodes.size())];
    std::string r = std::to_string(t.graph.shortestPathCost(a, c)) + s(t.graph.shortestPath(a, c));
    for (auto& row : t.graph.getCosts()) r += ser::list(row);
    return r + std::to_string(t.graph.numEdges()); }},
  {"graph.paths", kTools, [](W w, P p, T t) {
    if (!t.graph_ready) { t.graph = w.graph; t.graph_ready = true; }
    std::string r;
    for (auto& a : t.graph.getPaths()) for (auto& c : a) r += ser::list(c);
    return r; }},
  {"graph.all", 0, [](W w, P p, T) {
    std::vector<std::string> v;
    for (auto& a : w.graph.allPathsBetween(w.nodes[0], w.nodes[2])) v.push_back(s(a));
    std::sort(v.begin(), v.end());
    std::string r; for (auto& x : v) r += x; return r; }},
  {"graph.const", 0, [](W w, P p, T) {
    // Also of nodes that are not there.
    const F2CGraph2D& g = w.graph;
    std::string r = std::to_string(g.numNodes()) + " " + std::to_string(g.numEdges()) + s(g.getNodes());
    for (size_t i = 0, n = w.nodes.size() + 3; i < n; ++i) {
      auto e = g.getEdgesFrom(i); std::sort(e.begin(), e.end());
      r += ser::list(std::vector<int64_t>(e.begin(), e.end())) + std::to_string(g.getCostFromEdge(i, p.draw(n), 77)) + ",";
      try { r += s(g.indexToNode(i)); } catch (const std::logic_error&) { r += "!"; }
    }
    try { r += std::to_string(g.nodeToIndex(F2CPoint(-77, p.draw(9)))); } catch (const std::logic_error&) { r += "!"; }
    return r + std::to_string(g.numNodes()) + " " + std::to_string(g.numEdges()); }},
  {"empty.query", 0, [](W w, P, T) {
    const Nothing& n = w.none;
    return num(n.cell.area()) + num(n.cells.area()) + num(n.field.area()) + num(n.swaths.size()) + num(n.by.sizeTotal()) + num(n.route.length()) + num(n.path.length()) + num(n.ring.length()) +
      num(n.line.length()) + num(n.lines.length()) + num(n.mp.size()) + num(n.strip.getCell().area()) + num(n.swath.length()) + b(n.cells.isEmpty()) + b(n.field.isEmpty()) + b(n.route.isEmpty()) +
      nothingText({n.cell.clone(), n.cells.clone(), n.field.clone(), n.swaths.clone(), n.by.clone(), n.route.clone(), n.path, n.ring.clone(), n.line.clone(), n.lines.clone(), n.mp.clone(), n.strip.clone(), n.swath.clone()}); }},
  {"graph.build", 0, [](W w, P p, T) {
    F2CGraph2D g; auto short_g = w.graph;
    for (size_t i = 0; i + 1 < w.nodes.size(); ++i) { g.addEdge(w.nodes[i], w.nodes[i + 1], short_g); g.addDirectedEdge(w.nodes[0], w.nodes[i + 1]); }
    g.removeEdge(w.nodes[0], w.nodes[1]); g.addDirectedEdge(w.nodes[1], w.nodes[0], 3);
    std::string r; for (size_t i = 0; i < w.nodes.size(); ++i) for (auto& k : w.nodes) r += std::to_string(g.shortestPathCost(w.nodes[i], k)) + ",";
    return r; }},
  // ---- splines, random
  {"spline", 0, [](W w, P p, T) {
    f2c::CubicSpline sp(w.sx, w.sy, p.draw(2)); std::string r;
    for (int i = 0; i < 6; ++i) r += num(sp(0.3 * p.draw(30))) + " ";
    sp.SetPoints(w.sx, w.sx); return r + num(sp(1.1)); }},
  {"spline.bad", 0, [](W w, P p, T) { auto x = w.sx; x.pop_back(); if (p.draw(2)) x.clear(); f2c::CubicSpline sp(x, w.sy); return num(sp(0.5)); }},
  {"random", 0, [](W, P p, T) {
    f2c::Random r(p.draw(1000)); auto q = r;
    std::string x = costs({r.getRandomDouble(), r.getRandomLinear(1, 3), r.getRandomExp(0.5, 2), r.getRandomExpDist(1.5), r.getAngleRandom()});
    return x + s(r.generateRandField(50.0 + p.draw(200), 4 + p.draw(3)).getField()) + num(q.getRandomDouble()); }},
  {"random.convex", kGeos, [](W, P p, T) { f2c::Random r(p.draw(1000)); return s(r.genConvexField(100.0 + p.draw(500), 4 + p.draw(2)).getField()); }},
  {"random.nonconvex", kGeos | kHeavy, [](W, P p, T) { f2c::Random r(p.draw(1000)); return s(r.genNonConvexField(100.0 + p.draw(500)).getField()); }},
  // ---- coordinate systems
  {"crs.field", kProj, [](W w, P p, T) {
    F2CField f = w.geo_field.clone(); f.setCRS(w.geo_field.getCRS());
    f2c::Transform::transformToUTM(f, p.draw(2)); std::string r = s(f); r += s(f2c::Transform::getRefPointInGPS(f));
    f2c::Transform::transformToPrevCRS(f); return r + s(f); }},
  {"crs.things", kProj, [](W w, P p, T) {
    F2CField f = w.geo_field.clone(); f.setCRS(w.geo_field.getCRS());
    f2c::Transform::transformToUTM(f);
    return s(f2c::Transform::transformToPrevCRS(w.swaths, f)) + s(f2c::Transform::transformToPrevCRS(w.route, f)) + s(f2c::Transform::transformToPrevCRS(w.path, f)) + s(f2c::Transform::transformToPrevCRS(w.swaths[0], f)); }},
  {"crs.pairs", kProj, [](W, P p, T) {
    // Systems that differ in one part only: zone, hemisphere, datum, kind.
    static const char* const c[] = {"UTM:31N datum:WGS84", "UTM:31N datum:ETRS89", "UTM:31N datum:NAD27", "UTM:31N datum:GGRS87", "UTM:31S datum:WGS84", "UTM:32N datum:WGS84", "UTM:32N datum:etrs89",
      "UTM:31N", "UTM:32N", "utm:31n datum:NAD83", "EPSG:4326", "EPSG:4258", "EPSG:32631", "EPSG:32632", "EPSG:25831", "EPSG:28992", "EPSG:3857", "UTM:31N datum:nothing", "EPSG:1", ""};
    std::string r;
    for (uint32_t k = 1 + p.draw(4); k > 0; --k) {
      const std::string from = c[p.draw(10 + 7 * p.draw(2))], to = c[p.draw(p.draw(8) == 7 ? 20 : 17)];
      const bool deg = from == "EPSG:4326" || from == "EPSG:4258";
      F2CPoint q(deg ? 5.0 + 0.1 * p.draw(20) : 600000.0 + 100.0 * p.draw(500), deg ? 51.0 + 0.1 * p.draw(20) : 5600000.0 + 100.0 * p.draw(500));
      try { r += s(f2c::Transform::transform(q, from, to)) + ";"; } catch (const std::logic_error&) { r += "!"; } catch (const std::runtime_error&) { r += "!"; }
      try { char* w = nullptr; f2c::Transform::createSptRef(from)->exportToProj4(&w); std::unique_ptr<char, void (*)(void*)> o(w, VSIFree); r += w ? w : "-"; } catch (const std::logic_error&) { r += "!"; } catch (const std::runtime_error&) { r += "!"; }
    }
    return r; }},
  // ---- files
  {"file.path", kFile, [](W w, P p, T) {
    std::string f = fileName(p, "path");
    w.path.saveToFile(f, 4 + p.draw(10)); F2CPath q; q.loadFile(f); ::unlink(f.c_str()); return s(q); }},
  {"file.gml", kFile | kProj, [](W w, P p, T) {
    std::string f = fileName(p, "gml");
    std::ostringstream o;
    o << "<P id=\"" << w.robot.getName() << "\"><Field><geometry><gml:Polygon srsName=\"" << (p.draw(2) ? "EPSG:4258" : "EPSG:28992") << "\">";
    for (size_t i = 0; i < w.cell.size(); ++i) {
      const char* tag = i ? "gml:innerBoundaryIs" : "gml:outerBoundaryIs";
      o << "<" << tag << "><gml:LinearRing><gml:coordinates>";
      for (auto&& q : w.cell.getGeometry(i)) o << num(q.getX()) << "," << num(q.getY()) << " ";
      o << "</gml:coordinates></gml:LinearRing></" << tag << ">";
    }
    o << "</gml:Polygon></geometry></Field></P>";
    writeText(f, o.str());
    F2CFields fs; f2c::Parser::importGml(f, fs); auto one = f2c::Parser::importFieldGml(f);
    ::unlink(f.c_str());
    return s(fs.at(0)) + s(one); }},
  {"file.json", kFile, [](W w, P p, T) {
    std::string f = fileName(p, "json"), r;
    auto pts = [](auto&& ring) { std::string t; for (auto&& q : ring) t += (t.empty() ? "[" : ",[") + num(q.getX()) + "," + num(q.getY()) + "]"; return "[" + t + "]"; };
    std::string cells, swaths;
    for (auto&& c : w.cells) {
      std::string rings;
      for (auto&& g : c) rings += (rings.empty() ? "" : ",") + pts(g);
      cells += (cells.empty() ? "" : ",") + ("{\"properties\":{\"Name\":\"n" + std::to_string(p.draw(9)) + "\",\"crop_id\":\"k\"},\"geometry\":{\"coordinates\":[" + rings + "]}}");
    }
    for (auto& x : w.swaths) swaths += (swaths.empty() ? "" : ",") + ("{\"properties\":{\"width\":" + num(x.getWidth()) + ",\"path_id\":" + std::to_string(x.getId()) + "},\"geometry\":{\"coordinates\":" + pts(x.getPath()) + "}}");
    writeText(f, "{\"features\":[" + cells + "]}");
    F2CFields fs; f2c::Parser::importJson(f, fs);
    for (auto& x : fs) r += s(x);
    r += s(f2c::Parser::importCellJson(f));
    for (auto& x : f2c::Parser::importStripsJson(f)) r += s(x);
    writeText(f, "{\"features\":[" + swaths + "]}");
    r += s(f2c::Parser::importSwathsJson(f));
    ::unlink(f.c_str());
    return r; }},
  // ---- everything
  {"pipeline", kHeavy | kGeos | kTools, [](W w, P p, T t) {
    double x = w.width, size = 6 * x + p.draw(6) * x;
    F2CCell field(F2CLinearRing({F2CPoint(0, 0), F2CPoint(size, 0), F2CPoint(size + 2 * x, size), F2CPoint(x, size), F2CPoint(0, 0)}));
    F2CCells land = t.hl.generateHeadlands(F2CCells(field), x);
    F2CCells rings = t.hl.generateHeadlandSwaths(F2CCells(field), x, 1)[0];
    t.bf.setAllowOverlap(false);
    F2CSwathsByCells sw = t.bf.generateSwaths(0.05 + 0.1 * p.draw(63), x * 1.5, land);  // not near any angle of the world: turns are shared to the mm and mrad
    F2CRoute r = t.rp.genRoute(rings, sw);
    return s(r) + s(f2c::pp::PathPlanning::planPath(w.robot, r, turner(p, t))); }},
  {"plan.route", kHeavy | kGeos | kTools, [](W w, P p, T) {
    f2c::Options o = planOptions(p);
    F2CRobot r(1.0 + 0.25 * p.draw(5), 3.5 + 0.5 * p.draw(6));
    switch (p.draw(4)) {
      case 0: return s(f2c::planCovRoute(r, w.cell, o));
      case 1: return s(f2c::planCovRoute(r, w.cells, o));
      case 2: return s(f2c::planCovRoute(r, w.field, o));
      default: { F2CField f(F2CCells(w.cell)); return s(f2c::planCovRoute(r, f, o, true)); }
    } }},
  {"plan.path", kHeavy | kGeos | kTools, [](W w, P p, T) {
    f2c::Options o = planOptions(p);
    F2CRobot r(1.0 + 0.25 * p.draw(5), 4.5 + 0.5 * p.draw(6), 0.8 + 0.1 * p.draw(5), 0.8);
    switch (p.draw(4)) {
      case 0: return s(f2c::planCovPath(r, w.cell, o));
      case 1: return s(f2c::planCovPath(r, w.cells, o));
      case 2: return s(f2c::planCovPath(r, w.field, o));
      default: { F2CField f(F2CCells(w.cell)); return s(f2c::planCovPath(r, f, o, true)); }
    } }},
  {"plan.geo", kHeavy | kGeos | kTools | kProj, [](W w, P p, T) {
    f2c::Options o = planOptions(p);
    o.sg_alg = f2c::SGAlg::GIVEN_ANGLE;
    F2CRobot r(1.5, 4.0 + p.draw(5), 0.6, 0.6);
    // a corner of the field: some 30 m
    F2CPoint q = w.geo_field.getField().getGeometry(0).getGeometry(0).getGeometry(0);
    double e = 0.0002 + 0.00005 * p.draw(5), x = q.getX(), y = q.getY();
    F2CField f(F2CCells(F2CCell(F2CLinearRing({q, F2CPoint(x + e, y), F2CPoint(x + 1.2 * e, y + e), F2CPoint(x, y + 0.8 * e), q}))), "corner");
    f.setCRS(w.geo_field.getCRS());
    return p.draw(3) ? s(f2c::planCovRoute(r, f, o, false)) : s(f2c::planCovPath(r, f, o, false)); }},
  // ---- seldom used calls
  {"rp.custom", 0, [](W w, P p, T) {
    std::vector<size_t> o;
    for (size_t i = 0; i < w.swaths.size(); ++i) o.push_back(i);
    f2c::rp::CustomOrder c(o);
    std::string r = s(c.genSortedSwaths(w.swaths));
    std::rotate(o.begin(), o.begin() + p.draw(o.size()), o.end());
    c.setCustomOrder(o);
    f2c::rp::SpiralOrder sp(2);
    r += s(c.genSortedSwaths(w.swaths, p.draw(4))) + s(sp.genSortedSwaths(w.swaths));
    sp.setSpiralSize(2 + p.draw(5));
    return r + s(sp.genSortedSwaths(w.swaths, p.draw(4))); }},
  {"pp.constrained", kTools, [](W w, P p, T t) {
    F2CPath a = t.dubins_cc.createConstrainedTurn(w.robot, pt(p), 0.1 * p.draw(63), 0.01 * p.draw(5), pt(p), 0.1 * p.draw(63), 0.01 * p.draw(5), p.draw(2));
    return s(a) + b(f2c::pp::TurningBase::isTurnValid(a, 3.0 + p.draw(9), 0.1 * p.draw(63))); }},
  {"pp.connection", kTools, [](W w, P p, T t) {
    auto& tu = turner(p, t);
    F2CMultiPoint m, none;
    for (int i = 0, n = p.draw(5); i < n; ++i) m.addPoint(pt(p) * 3.0);
    F2CSwaths nothing;
    F2CPoint x = pt(p), y = pt(p);
    double u = 0.1 * p.draw(63), v = 0.1 * p.draw(63);  // coarse: as in pipeline
    std::string r = s(f2c::pp::PathPlanning::planPathForConnection(w.robot, x, u, m, y, v, tu));
    r += s(f2c::pp::PathPlanning::planPathForConnection(w.robot, w.swaths, m, p.draw(2) ? w.swaths : nothing, tu));
    return r + s(f2c::pp::PathPlanning::planPathForConnection(w.robot, nothing, m, p.draw(2) ? w.swaths : nothing, tu)); }},
  {"obj.more", kGeos, [](W w, P p, T) {
    f2c::obj::DecompObjective d; f2c::obj::HGObjective h; f2c::obj::RPObjective o; f2c::obj::PPObjective pp;
    const F2CSwath& k = w.swaths[p.draw(w.swaths.size())];
    F2CPoint q = pt(p);
    double a = ang(p);
    std::string r = costs({d.computeCost(w.cells), h.computeCost(w.cell, w.cell), h.computeCost(w.cells, w.cell), h.computeCost(w.cell, w.cells),
        o.computeCost(k, q), o.computeCost(q, k), o.computeCost(k, q, a), o.computeCost(q, a, k), pp.computeCost(w.path)});
    return r + b(h.isMinimizing()) + b(h.isMaximizing()) + b(o.isMaximizing()); }},
  {"types.more", kGeos, [](W w, P p, T) {
    std::string r;
    size_t i = p.draw(w.line.size()), j = p.draw(w.ring.size());
    r += costs({w.line.X(i), w.line.Y(i), w.line.Z(i), w.line.getX(i), w.line.getY(i), w.line.getZ(i), w.ring.getX(j), w.ring.getY(j), w.ring.getZ(j)});
    r += s(F2CMultiLineString({w.line, w.line})) + s(F2CMultiPoint({pt(p), pt(p)})) + s(F2CSwaths({w.swaths[0], w.swaths.back()}));
    F2CSwathsByCells e(2), by({w.swaths, w.by_cells[0]});
    e.at(1) = w.swaths.clone();
    const F2CSwathsByCells& ce = e;
    r += s(e) + s(by) + s(ce[1]) + s(ce.at(0)) + s(ce.back());
    F2CSwaths a;
    a.append(w.line, w.cell, w.width); a.append(w.line, w.cells, w.width);
    r += s(a) + b(w.cell.isPointInBorder(pt(p))) + s(w.cells.createStraightLongLine(pt(p), ang(p)));
    const F2CSwath& x = w.swaths[p.draw(w.swaths.size())], &y = w.swaths[p.draw(w.swaths.size())];
    r += b(x != y) + b(x == y) + b(x < y) + b(x > y) + b(x <= y) + b(x >= y);
    r += s(F2CSwath(w.line).getPath()) + num(F2CSwath(w.width).getWidth()) + s(x.getPoint(0));
    const F2CRoute& rt = w.route;
    r += s(rt.getLastSwaths()) + std::to_string(w.path.getStates().size()) + std::to_string(F2CGraph().numNodes());
    F2CField f = w.geo_field.clone();
    f.setUTMCoordSystem("31N", "etrs89");
    return r + f.getCRS(); }},
};
}  // namespace

const std::vector<Op>& ops() { return kOps; }
const Op& opNamed(const std::string& name) {
  for (auto& o : kOps) if (name == o.name) return o;
  sim::harnessError("no operation %s", name.c_str());
}

std::string runOpRaw(const Op& op, const World& w, Params p, Tools& t) { p.rewind(); return op.run(w, p, t); }

std::string runOp(const Op& op, const World& w, Params p, Tools& t) {
  try {
    return runOpRaw(op, w, p, t);
  } catch (const CallbackFailure&) {
    return "!callback";
  } catch (const std::bad_alloc&) {
    return "!bad_alloc";
  } catch (const std::exception& e) {
    return std::string("!exception");
  } catch (...) {
    return "!callback";
  }
}
