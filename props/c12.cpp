// variant=asan uses=ser
// Histories of changes on several objects of the library's types, any of which
// may run out of memory. Oracle: the same history on plain C++ values.
#include <cmath>
#include <functional>
#include <memory>
#include "fault.h"
#include <unistd.h>
#include <map>
#include "ser.h"
#include "sim.h"
const char* const kProperty = "C12";
using sim::OPS;
using sim::FAULT;
using ser::num;

// ------------------------------------------------------------------- model
namespace m {
struct P { double x {0}, y {0}, z {0}; };
typedef std::vector<P> Pts;
struct Line { Pts p; };
struct Ring { Pts p; };
struct Multi { Pts p; };
struct Lines { std::vector<Line> l; };
struct Cell { std::vector<Ring> r; };
struct Cells { std::vector<Cell> c; };
struct Swath { Line p; double w {0}; int id {0}, type {0}; bool dir {true}; };
struct Swaths { std::vector<Swath> s; };
struct ByCells { std::vector<Swaths> s; };
struct Route { std::vector<Swaths> s; std::vector<Multi> c; };
struct Field { std::string id, crs, prev; P ref; bool has_ref {false}; Cells cells; };
struct Robot { std::string name; double w {0}, cov {0}, vel {1}, turn {-1}, curv {1}, diff {0.3}; };
struct State { P p; double a {0}, l {0}, v {1}; int dir {1}, type {1}; };
struct Path { std::vector<State> s; };
struct Strip { std::string name; Cell c; };

std::string xy(const P& p) { return num(p.x) + " " + num(p.y) + (p.z != 0 ? " z" + num(p.z) : ""); }
std::string s(const Pts& v) { std::string r = "("; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + xy(v[i]); return r + ")"; }
std::string s(const P& p) { return "POINT(" + xy(p) + ")"; }
std::string s(const Line& v) { return "LINESTRING" + s(v.p); }
std::string s(const Ring& v) { return "LINEARRING" + s(v.p); }
template <class T> std::string join(const T& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ";" : "") + s(v[i]); return r + "]"; }
std::string s(const Multi& v) { return "MULTIPOINT" + join(v.p); }
std::string s(const Lines& v) { return "MULTILINESTRING" + join(v.l); }
std::string s(const Cell& v) { std::string r = "POLYGON{"; for (auto& x : v.r) r += s(x.p); return r + "}"; }
std::string s(const Cells& v) { return "MULTIPOLYGON" + join(v.c); }
std::string s(const Swath& x) { return "swath{" + std::to_string(x.id) + " w" + num(x.w) + " d" + std::to_string(x.dir) + " t" + std::to_string(x.type) + " " + s(x.p) + "}"; }
std::string s(const Swaths& x) { std::string r = "swaths["; for (auto& i : x.s) r += s(i) + "\n"; return r + "]"; }
std::string s(const ByCells& x) { std::string r = "bycells["; for (auto& i : x.s) r += s(i) + "\n"; return r + "]"; }
std::string s(const Route& x) { std::string r = "route{"; for (auto& i : x.s) r += s(i) + "\n"; r += "|"; for (auto& i : x.c) r += s(i) + "\n"; return r + "}"; }
std::string s(const Field& x) { return "field{" + x.id + " crs<" + x.crs + "> prev<" + x.prev + "> ref " + (x.has_ref ? s(x.ref) : "POINT EMPTY") + " " + s(x.cells) + "}"; }
std::string s(const Robot& x) { return "robot{" + x.name + " " + num(x.w) + " " + num(x.cov) + " " + num(x.vel) + " " + num(x.turn < 0 ? x.vel : x.turn) + " " + num(x.curv) + " " + num(x.diff) + "}"; }
std::string s(const Path& x) { std::string r = "path["; for (auto& t : x.s) r += s(t.p) + " a" + num(t.a) + " l" + num(t.l) + " v" + num(t.v) + " " + std::to_string(t.dir) + " " + std::to_string(t.type) + "\n"; return r + "]"; }
std::string s(const Strip& x) { return "strip{" + x.name + " " + s(x.c) + "}"; }

// Changes of every coordinate: all states between none and all of them, in order.
template <class F> void each(Pts& v, F f) { for (auto& p : v) f(p); }
template <class F> void each(Line& v, F f) { each(v.p, f); }
template <class F> void each(Ring& v, F f) { each(v.p, f); }
template <class F> void each(Multi& v, F f) { each(v.p, f); }
template <class F> void each(Lines& v, F f) { for (auto& x : v.l) each(x, f); }
template <class F> void each(Cell& v, F f) { for (auto& x : v.r) each(x, f); }
template <class F> void each(Cells& v, F f) { for (auto& x : v.c) each(x, f); }
template <class F> void each(Swath& v, F f) { each(v.p, f); }
template <class F> void each(Swaths& v, F f) { for (auto& x : v.s) each(x, f); }
template <class F> void each(Path& v, F f) { for (auto& x : v.s) f(x.p); }
void close(Ring& r) { if (!r.p.empty() && (r.p.front().x != r.p.back().x || r.p.front().y != r.p.back().y || r.p.front().z != r.p.back().z)) r.p.push_back(r.p.front()); }
Ring closed(Ring r) { close(r); return r; }
void reverse(Swath& x) { std::reverse(x.p.p.begin(), x.p.p.end()); x.dir = !x.dir; }
}  // namespace m

namespace {
// ----------------------------------------------------------------- objects
template <class O, class M> struct Slot { O o; M m; };
typedef Slot<F2CPoint, m::P> SPoint;
typedef Slot<F2CLineString, m::Line> SLine;
typedef Slot<F2CLinearRing, m::Ring> SRing;
typedef Slot<F2CMultiPoint, m::Multi> SMulti;
typedef Slot<F2CMultiLineString, m::Lines> SLines;
typedef Slot<F2CCell, m::Cell> SCell;
typedef Slot<F2CCells, m::Cells> SCells;
typedef Slot<F2CSwath, m::Swath> SSwath;
typedef Slot<F2CSwaths, m::Swaths> SSwaths;
typedef Slot<F2CSwathsByCells, m::ByCells> SByCells;
typedef Slot<F2CRoute, m::Route> SRoute;
typedef Slot<F2CField, m::Field> SField;
typedef Slot<F2CRobot, m::Robot> SRobot;
typedef Slot<F2CPath, m::Path> SPath;
typedef Slot<F2CStrip, m::Strip> SStrip;
template <class S> using Pool = std::vector<std::unique_ptr<S>>;
struct All {
  Pool<SPoint> point;
  Pool<SLine> line; Pool<SRing> ring; Pool<SMulti> multi; Pool<SLines> lines; Pool<SCell> cell; Pool<SCells> cells;
  Pool<SSwath> swath; Pool<SSwaths> swaths; Pool<SByCells> by; Pool<SRoute> route; Pool<SField> field; Pool<SRobot> robot; Pool<SPath> path; Pool<SStrip> strip;
  template <class F> void each(F f) {
    auto one = [&](auto& pool, const char* what) { for (size_t i = 0; i < pool.size(); ++i) f(*pool[i], what, i); };
    one(point, "point"); one(line, "line"); one(ring, "ring"); one(multi, "multipoint"); one(lines, "lines"); one(cell, "cell"); one(cells, "cells"); one(swath, "swath");
    one(swaths, "swaths"); one(by, "swathsByCells"); one(route, "route"); one(field, "field"); one(robot, "robot"); one(path, "path"); one(strip, "strip");
  }
};
All* g_all;

double coord() {
  switch (sim::draw(OPS, 4)) {
    case 0: return sim::draw(OPS, 50);
    case 1: return -20.0 + 0.25 * sim::draw(OPS, 200);
    case 2: return sim::draw(OPS, 1 << 20) / 3.0e3;
    default: return 1e-9 * (1 + sim::draw(OPS, 1 << 20));
  }
}
m::P drawP() { m::P p; p.x = coord(); p.y = coord(); if (sim::draw(OPS, 6) == 5) p.z = 0.5 * (1 + sim::draw(OPS, 9)); return p; }
F2CPoint lib(const m::P& p) { return F2CPoint(p.x, p.y, p.z); }
std::vector<F2CPoint> lib(const m::Pts& v) { std::vector<F2CPoint> r; for (auto& p : v) r.push_back(lib(p)); return r; }
m::Pts drawPts(int lo, int hi) { m::Pts r; for (int i = 0, n = lo + sim::draw(OPS, hi - lo + 1); i < n; ++i) r.push_back(drawP()); return r; }
F2CLineString lib(const m::Line& l) { F2CLineString r; for (auto& p : l.p) r.addPoint(p.x, p.y, p.z); return r; }
F2CLinearRing lib(const m::Ring& l) { F2CLinearRing r; for (auto& p : l.p) r.addPoint(p.x, p.y, p.z); return r; }
F2CMultiPoint lib(const m::Multi& l) { F2CMultiPoint r; for (auto& p : l.p) r.addPoint(p.x, p.y, p.z); return r; }
m::Ring drawRing() { m::Ring r {drawPts(3, 5)}; if (sim::draw(OPS, 2)) m::close(r); return r; }
m::Cell drawCell() { m::Cell c; for (int i = 0, n = 1 + sim::draw(OPS, 2); i < n; ++i) c.r.push_back(m::closed(drawRing())); return c; }
F2CCell lib(const m::Cell& c) { F2CCell r; for (auto& x : c.r) r.addRing(lib(x)); return r; }
int g_ids = 0;
m::Swath drawSwath() { m::Swath s; s.p.p = drawPts(2, 4); s.w = 0.5 * (1 + sim::draw(OPS, 9)); s.id = (g_ids++ * 7919) % 10007; s.type = sim::draw(OPS, 2); s.dir = true; return s; }
F2CSwath lib(const m::Swath& s) { F2CSwath r(lib(s.p), s.w, s.id, static_cast<f2c::types::SwathType>(s.type)); r.setCreationDir(s.dir); return r; }
m::Swaths drawSwaths(int lo, int hi) { m::Swaths r; for (int i = 0, n = lo + sim::draw(OPS, hi - lo + 1); i < n; ++i) r.s.push_back(drawSwath()); return r; }
F2CSwaths lib(const m::Swaths& s) { F2CSwaths r; for (auto& x : s.s) r.push_back(lib(x)); return r; }
std::string word() {
  static const char* w[] = {"", "a", "EPSG:4326", "UTM:31N datum:etrs89", "a name too long for the small string buffer", "another name too long for the small string buffer"};
  return w[sim::draw(OPS, 6)];
}
m::State drawState() {
  m::State t; t.p = drawP(); t.a = 0.1 * sim::draw(OPS, 63); t.l = 0.5 * sim::draw(OPS, 9); t.v = 0.5 * (1 + sim::draw(OPS, 5));
  t.dir = sim::draw(OPS, 2) ? -1 : 1; t.type = 1 + sim::draw(OPS, 3); return t;
}
f2c::types::PathState lib(const m::State& t) {
  f2c::types::PathState r; r.point = lib(t.p); r.angle = t.a; r.len = t.l; r.velocity = t.v;
  r.dir = static_cast<f2c::types::PathDirection>(t.dir); r.type = static_cast<f2c::types::PathSectionType>(t.type); return r;
}

// -------------------------------------------------------------- performing
std::string g_op;
void checkAll(const char* when) {
  g_all->each([&](auto& slot, const char* what, size_t i) {
    std::string got = ser::s(slot.o), want = m::s(slot.m);
    if (got != want) sim::violation("content", "%s %zu after %s%s: %s", what, i, g_op.c_str(), when, sim::diff(want, got).c_str());
  });
}
// Calls act on the object; memory may run out meanwhile. `mids` are the states
// between, in which a failing call that appends several elements may stop.
std::map<std::string, uint64_t> g_allocs;   // most allocations a call made so far
template <class S, class A> void perform(S& slot, const std::string& name, A act, decltype(S::m) fin, std::vector<decltype(S::m)> mids = {}, bool throws = false, bool no_fault = false) {
  g_op = name;
  sim::count(("op." + name).c_str());
  sim::sig(name);
  std::string before = m::s(slot.m);
  uint32_t f = no_fault ? 0 : sim::draw(FAULT, 3);
  uint64_t k = 0, run = 1;
  if (f) { k = 1 + sim::draw(FAULT, f == 1 ? 6 : std::max<uint64_t>(30, g_allocs[name])); run = sim::draw(FAULT, 4) == 3 ? 1000000 : 1; }
  bool threw = false, oom = false;
  std::string how;
  if (f) sim::allocArm(k, run);
  else sim::allocCountStart();
  try { act(slot.o); }
  catch (const std::bad_alloc&) { threw = oom = true; }
  catch (const std::exception& e) { threw = true; how = e.what(); }
  uint64_t failed = f ? sim::allocDisarm() : 0;
  if (!f) { uint64_t c = sim::allocCountStop(); auto& most = g_allocs[name]; most = std::max(most, c); }
  if (failed) { sim::count("fault.bad_alloc"); sim::nontrivial(); }
  sim::log("%s%s%s", name.c_str(), failed ? " with failing allocation" : "", oom ? ": bad_alloc" : threw ? ": threw" : "");
  std::string got = ser::s(slot.o);
  if (oom) {
    if (!failed) sim::violation("refused", "%s threw bad_alloc without a failing allocation", name.c_str());
    if (got == before) { checkAll(" failed"); return; }
    for (auto& x : mids) if (m::s(x) == got) { slot.m = x; sim::count("probe.stopped_between"); checkAll(" failed"); return; }
    sim::violation("half-done", "%s failed and left its object changed: %s", name.c_str(), sim::diff(before, got).c_str());
  }
  if (threw && !throws) sim::violation("refused", "%s threw %s", name.c_str(), how.c_str());
  if (!threw && throws && !failed) sim::violation("accepted", "%s did not throw", name.c_str());
  if (!threw && throws) sim::violation("accepted", "%s did not throw after a failing allocation", name.c_str());
  if (!throws) slot.m = fin;
  checkAll("");
}
template <class S> S& pick(Pool<S>& p) { return *p[sim::draw(OPS, p.size())]; }
template <class S> void expectEq(S& slot, const char* what, const std::string& want, const std::string& got) {
  (void)slot;
  if (want != got) sim::violation("query", "%s after %s: expected %s, got %s", what, g_op.c_str(), sim::brief(want, 300).c_str(), sim::brief(got, 300).c_str());
}
template <class F> void expectThrow(const char* what, F f) {
  try { f(); } catch (const std::out_of_range&) { return; } catch (const std::exception&) { return; }
  sim::violation("query", "%s did not throw", what);
}
// A clone becomes another object of the pool.
template <class S> void cloneInto(Pool<S>& pool, const std::string& name) {
  if (pool.size() >= 4) pool.erase(pool.begin() + sim::draw(OPS, pool.size()));
  if (pool.empty()) return;
  size_t from = sim::draw(OPS, pool.size());
  pool.push_back(std::make_unique<S>());
  S& src = *pool[from];
  perform(*pool.back(), name + ".clone", [&](auto& o) { o = src.o.clone(); }, src.m);
}
template <class S> void fresh(Pool<S>& pool) {
  if (pool.size() >= 3) return;
  pool.push_back(std::make_unique<S>());
  if constexpr (std::is_same<S, SPoint>::value) pool.back()->o = F2CPoint(0, 0);
}
template <class M, class F> M with(M x, F f) { f(x); return x; }

// A point to be given to a call: a new one or one of the pool, which stays apart.
struct PointArg {
  m::P m; F2CPoint own; const F2CPoint* at {&own};
  PointArg() {
    if (!g_all->point.empty() && sim::draw(OPS, 2)) { auto& t = pick(g_all->point); m = t.m; at = &t.o; }
    else { m = drawP(); own = F2CPoint(m.x, m.y, m.z); }
  }
};
void pointObjOps(All& a) {
  auto& t = pick(a.point);
  double v = coord();
  PointArg q;
  switch (sim::draw(OPS, 15)) {
    case 0: perform(t, "point.setX", [&](auto& o) { o.setX(v); }, with(t.m, [&](auto& x) { x.x = v; })); break;
    case 1: perform(t, "point.setY", [&](auto& o) { o.setY(v); }, with(t.m, [&](auto& x) { x.y = v; })); break;
    case 2: perform(t, "point.setZ", [&](auto& o) { o.setZ(v); }, with(t.m, [&](auto& x) { x.z = v; })); break;
    case 3: perform(t, "point.setPoint(xyz)", [&](auto& o) { o.setPoint(q.m.x, q.m.y, q.m.z); }, q.m); break;
    case 4: perform(t, "point.setPoint", [&](auto& o) { o.setPoint(*q.at); }, q.m); break;
    case 5: perform(t, "point.assign", [&](auto& o) { o = *q.at; }, q.m); break;
    case 6: perform(t, "point.move", [&](auto& o) { F2CPoint x(*q.at); o = std::move(x); }, q.m); break;
    case 7: perform(t, "point.scale", [&](auto& o) { o *= v; }, m::P {t.m.x * v, t.m.y * v, t.m.z * v}); break;
    case 8: perform(t, "point.sum", [&](auto& o) { o = o + *q.at; }, m::P {t.m.x + q.m.x, t.m.y + q.m.y, t.m.z + q.m.z}); break;
    case 9: perform(t, "point.difference", [&](auto& o) { o = *q.at - o; }, m::P {q.m.x - t.m.x, q.m.y - t.m.y, q.m.z - t.m.z}); break;
    case 10: perform(t, "point.times", [&](auto& o) { o = *q.at * v; }, m::P {q.m.x * v, q.m.y * v, q.m.z * v}); break;
    case 11: perform(t, "point.over", [&](auto& o) { o = *q.at / 4.0; }, m::P {q.m.x / 4.0, q.m.y / 4.0, q.m.z / 4.0}); break;
    case 12: perform(t, "point.clone", [&](auto& o) { o = q.at->clone(); }, q.m); break;
    case 13: perform(t, "point.construct", [&](auto& o) { F2CPoint x(*q.at); x.setX(v); o = F2CPoint(x); x.setY(v + 1); }, with(q.m, [&](auto& x) { x.x = v; })); break;
    default: {
      auto& l = pick(a.line);
      if (l.m.p.empty()) break;
      size_t i = sim::draw(OPS, l.m.p.size());
      perform(t, "point.getGeometry", [&](auto& o) { o = l.o.getGeometry(i); o.setZ(v); }, with(l.m.p[i], [&](auto& x) { x.z = v; }), {l.m.p[i]});
    }
  }
  const auto& c = t.o; auto& x = t.m;
  expectEq(t, "coordinates", num(x.x) + " " + num(x.y) + " " + num(x.z), num(c.getX()) + " " + num(c.getY()) + " " + num(c.getZ()));
}
// points of lines, rings and multipoints
template <class S> void pointOps(S& t, const std::string& n, bool multi) {
  PointArg arg;
  const m::P& p = arg.m;
  auto& o = t.m.p;
  switch (sim::draw(OPS, 8)) {
    case 0: perform(t, n + ".addPoint", [&](auto& g) { g.addPoint(p.x, p.y, p.z); }, with(t.m, [&](auto& x) { x.p.push_back(p); })); break;
    case 1: perform(t, n + ".addPoint", [&](auto& g) { g.addPoint(*arg.at); }, with(t.m, [&](auto& x) { x.p.push_back(p); })); break;
    case 2: perform(t, n + ".addGeometry", [&](auto& g) { g.addGeometry(*arg.at); }, with(t.m, [&](auto& x) { x.p.push_back(p); })); break;
    case 3: {
      size_t i = sim::draw(OPS, multi ? std::max<size_t>(o.size(), 1) : o.size() + 3);
      if (multi && o.empty()) break;
      perform(t, n + ".setGeometry", [&](auto& g) { g.setGeometry(i, *arg.at); }, with(t.m, [&](auto& x) { if (i >= x.p.size()) x.p.resize(i + 1); x.p[i] = p; }));
      break;
    }
    case 4: {
      double b = 0.5 * (1 + sim::draw(OPS, 5));
      if (sim::draw(OPS, 4) == 3) b = 1 + 1e-9 * (1 + sim::draw(OPS, 100));
      perform(t, n + ".scale", [&](auto& g) { g *= b; }, with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x *= b; q.y *= b; q.z *= b; }); }));
      break;
    }
    case 5: {
      // a loop of the user; it may stop anywhere
      std::vector<decltype(t.m)> mids;
      auto fin = t.m;
      for (size_t i = 0; i < o.size(); ++i) { fin.p[i].x += p.x; fin.p[i].y += p.y; fin.p[i].z += p.z; mids.push_back(fin); }
      perform(t, n + ".loop", [&](auto& g) { F2CPoint q = lib(p); for (auto&& c : g) c = c + q; }, fin, mids);
      break;
    }
    case 6: {
      auto v = drawPts(0, 4);
      auto l = lib(v);
      if (sim::draw(OPS, 2)) { std::reverse(l.begin(), l.end()); std::reverse(v.begin(), v.end()); }
      typedef typename std::remove_reference<decltype(t.o)>::type G;
      perform(t, n + ".construct", [&](auto& g) { g = G(l); }, with(t.m, [&](auto& x) { x.p = v; }));
      break;
    }
    default:
      if constexpr (std::is_same<decltype(t.m), m::Multi>::value) {
        auto& other = pick(g_all->multi);
        std::vector<m::Multi> mids; m::Multi fin = t.m;
        m::Pts add = other.m.p;
        for (auto& q : add) { fin.p.push_back(q); mids.push_back(fin); }
        perform(t, n + ".addPoints", [&](auto& g) { g.addPoints(other.o); }, fin, mids);
      } else {
        perform(t, n + ".reversePoints", [&](auto& g) { g.reversePoints(); }, with(t.m, [&](auto& x) { std::reverse(x.p.begin(), x.p.end()); }));
      }
  }
  // queries
  const auto& c = t.o;
  expectEq(t, "size()", std::to_string(o.size()), std::to_string(c.size()));
  std::string a, b;
  for (const auto& q : c) a += ser::s(q);
  for (auto& q : o) b += m::s(q);
  expectEq(t, "iteration", b, a);
  if (!o.empty()) {
    size_t i = sim::draw(OPS, o.size());
    expectEq(t, "getGeometry()", m::s(o[i]), ser::s(c.getGeometry(i)));
    expectEq(t, "at()", m::s(o[i]), ser::s(c.at(i)));
    expectEq(t, "back()", m::s(o.back()), ser::s(c.back()));
    F2CPoint q; c.getGeometry(i, q);
    expectEq(t, "getGeometry(point)", m::s(o[i]), ser::s(q));
  }
  expectThrow("getGeometry() outside", [&] { c.getGeometry(o.size() + sim::draw(OPS, 3)); });
}

void lineOps(All& a) { auto& t = pick(a.line); pointOps(t, "line", false); if (!t.m.p.empty()) { expectEq(t, "startPoint()", m::s(t.m.p.front()), ser::s(t.o.startPoint())); expectEq(t, "endPoint()", m::s(t.m.p.back()), ser::s(t.o.endPoint())); } }
void ringOps(All& a) {
  auto& t = pick(a.ring);
  if (sim::draw(OPS, 6) == 5) perform(t, "ring.closeRing", [](auto& g) { g.closeRing(); }, m::closed(t.m));
  else pointOps(t, "ring", false);
  if (!t.m.p.empty()) { expectEq(t, "startPoint()", m::s(t.m.p.front()), ser::s(t.o.startPoint())); expectEq(t, "endPoint()", m::s(t.m.p.back()), ser::s(t.o.endPoint())); }
}
void multiOps(All& a) { auto& t = pick(a.multi); pointOps(t, "multipoint", true); if (!t.m.p.empty()) { expectEq(t, "getFirstPoint()", m::s(t.m.p.front()), ser::s(t.o.getFirstPoint())); expectEq(t, "getLastPoint()", m::s(t.m.p.back()), ser::s(t.o.getLastPoint())); } }

bool hollow(const m::Lines& l) { for (auto& x : l.l) if (!x.p.empty()) return false; return true; }
bool hollow(const m::Cell& c) { return c.r.empty() || c.r[0].p.empty(); }
bool hollow(const m::Cells& l) { for (auto& x : l.c) if (!hollow(x)) return false; return true; }

void linesOps(All& a) {
  auto& t = pick(a.lines);
  auto& src = pick(a.line);
  m::Line l = src.m;
  switch (sim::draw(OPS, 6)) {
    case 0: case 1: perform(t, "lines.addGeometry", [&](auto& g) { g.addGeometry(src.o); }, with(t.m, [&](auto& x) { x.l.push_back(l); })); break;
    case 2: {
      auto& other = pick(a.lines);
      std::vector<m::Lines> mids; m::Lines fin = t.m;
      if (!hollow(other.m)) { auto add = other.m.l; for (auto& x : add) { fin.l.push_back(x); mids.push_back(fin); } }
      perform(t, "lines.addGeometry(lines)", [&](auto& g) { g.addGeometry(other.o); }, fin, mids);
      break;
    }
    case 3: {
      if (hollow(t.m) && !t.m.l.empty()) break;   // size() is 0 for nothing but empty lines
      size_t n = t.m.l.size(), i = sim::draw(OPS, n + 5);
      std::vector<m::Lines> mids; m::Lines fin = t.m;
      while (fin.l.size() < i) { fin.l.emplace_back(); mids.push_back(fin); }
      if (i < n) fin.l[i] = l; else fin.l.push_back(l);
      perform(t, "lines.setGeometry", [&](auto& g) { g.setGeometry(i, src.o); }, fin, mids);
      break;
    }
    case 4: {
      double b = 0.5 * (1 + sim::draw(OPS, 5));
      perform(t, "lines.scale", [&](auto& g) { g *= b; }, hollow(t.m) ? t.m : with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x *= b; q.y *= b; q.z *= b; }); }));
      break;
    }
    default: {
      perform(t, "lines.append", [&](auto& g) { g.append(src.o.get()); }, l.p.empty() ? t.m : with(t.m, [&](auto& x) { x.l.push_back(l); }));
    }
  }
  const auto& c = t.o;
  size_t n = hollow(t.m) ? 0 : t.m.l.size();
  expectEq(t, "size()", std::to_string(n), std::to_string(c.size()));
  std::string x, y;
  for (const auto& q : c) x += ser::s(q);
  for (size_t i = 0; i < n; ++i) y += m::s(t.m.l[i]);
  expectEq(t, "iteration", y, x);
  if (n) { size_t i = sim::draw(OPS, n); expectEq(t, "getGeometry()", m::s(t.m.l[i]), ser::s(c.getGeometry(i))); expectEq(t, "back()", m::s(t.m.l.back()), ser::s(c.back())); }
  expectThrow("getGeometry() outside", [&] { c.getGeometry(n); });
}

void cellOps(All& a) {
  auto& t = pick(a.cell);
  m::Ring r = drawRing();
  F2CLinearRing lr = lib(r);
  m::Ring rc = m::closed(r);
  switch (sim::draw(OPS, 6)) {
    case 0: case 1: perform(t, "cell.addRing", [&](auto& g) { g.addRing(lr); }, with(t.m, [&](auto& x) { x.r.push_back(rc); })); break;
    case 2: perform(t, "cell.addGeometry", [&](auto& g) { g.addGeometry(lr); }, with(t.m, [&](auto& x) { x.r.push_back(rc); })); break;
    case 3: {
      size_t n = t.m.r.size(), i = sim::draw(OPS, n ? n + 4 : 1);
      std::vector<m::Cell> mids; m::Cell fin = t.m;
      while (fin.r.size() < i) { fin.r.emplace_back(); mids.push_back(fin); }
      if (i < n) fin.r[i] = rc; else fin.r.push_back(rc);
      perform(t, "cell.setGeometry", [&](auto& g) { g.setGeometry(i, lr); }, fin, mids);
      break;
    }
    case 4: {
      double b = 0.5 * (1 + sim::draw(OPS, 5));
      perform(t, "cell.scale", [&](auto& g) { g *= b; }, with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x *= b; q.y *= b; q.z *= b; }); }));
      break;
    }
    default: {
      m::Cell c = drawCell();
      perform(t, "cell.construct", [&](auto& g) { g = F2CCell(lr); }, m::Cell {{rc}});
    }
  }
  const auto& c = t.o;
  size_t n = t.m.r.size();
  expectEq(t, "size()", std::to_string(n), std::to_string(c.size()));
  std::string x, y;
  for (const auto& q : c) x += ser::s(q);
  for (size_t i = 0; i < n; ++i) y += m::s(t.m.r[i]);
  expectEq(t, "iteration", y, x);
  if (n) {
    size_t i = sim::draw(OPS, n);
    expectEq(t, "getGeometry()", m::s(t.m.r[i]), ser::s(c.getGeometry(i)));
    expectEq(t, "getExteriorRing()", m::s(t.m.r[0]), ser::s(c.getExteriorRing()));
    if (i) expectEq(t, "getInteriorRing()", m::s(t.m.r[i]), ser::s(c.getInteriorRing(i - 1)));
  }
  expectThrow("getGeometry() outside", [&] { c.getGeometry(n); });
}

void cellsOps(All& a) {
  auto& t = pick(a.cells);
  auto& src = pick(a.cell);
  m::Cell c = src.m;
  switch (sim::draw(OPS, 6)) {
    case 0: case 1: perform(t, "cells.addGeometry", [&](auto& g) { g.addGeometry(src.o); }, with(t.m, [&](auto& x) { x.c.push_back(c); })); break;
    case 2: {
      if (t.m.c.empty()) break;
      size_t i = sim::draw(OPS, t.m.c.size());
      m::Ring r = drawRing(); F2CLinearRing lr = lib(r);
      perform(t, "cells.addRing", [&](auto& g) { g.addRing(i, lr); }, with(t.m, [&](auto& x) { x.c[i].r.push_back(r); }));
      break;
    }
    case 3: {
      if (hollow(t.m) && !t.m.c.empty()) break;
      size_t n = t.m.c.size(), i = sim::draw(OPS, n + 5);
      std::vector<m::Cells> mids; m::Cells fin = t.m;
      while (fin.c.size() < i) { fin.c.emplace_back(); mids.push_back(fin); }
      if (i < n) fin.c[i] = c; else fin.c.push_back(c);
      // cells with an open ring are closed by being copied ring by ring: not here
      perform(t, "cells.setGeometry", [&](auto& g) { g.setGeometry(i, src.o); }, fin, mids);
      break;
    }
    case 4: {
      double b = 0.5 * (1 + sim::draw(OPS, 5));
      perform(t, "cells.scale", [&](auto& g) { g *= b; }, with(t.m, [&](auto& x) { if (!hollow(x)) for (auto& k : x.c) if (!hollow(k)) m::each(k, [&](m::P& q) { q.x *= b; q.y *= b; q.z *= b; }); }));
      break;
    }
    default: perform(t, "cells.construct", [&](auto& g) { g = F2CCells(src.o); }, m::Cells {{c}});
  }
  const auto& k = t.o;
  size_t n = hollow(t.m) ? 0 : t.m.c.size();
  expectEq(t, "size()", std::to_string(n), std::to_string(k.size()));
  std::string x, y;
  for (const auto& q : k) x += ser::s(q);
  for (size_t i = 0; i < n; ++i) y += m::s(t.m.c[i]);
  expectEq(t, "iteration", y, x);
  if (n) { size_t i = sim::draw(OPS, n); expectEq(t, "getGeometry()", m::s(t.m.c[i]), ser::s(k.getGeometry(i))); expectEq(t, "getCell()", m::s(t.m.c[i]), ser::s(k.getCell(i))); if (!hollow(t.m.c[i])) expectEq(t, "getCellBorder()", m::s(t.m.c[i].r[0]), ser::s(k.getCellBorder(i))); }
  expectThrow("getGeometry() outside", [&] { k.getGeometry(n); });
}

template <class S> void swathOn(S& t, const std::string& n, std::function<F2CSwath&(decltype(S::o)&)> at, std::function<m::Swath&(decltype(S::m)&)> mat) {
  PointArg arg;
  const m::P& p = arg.m;
  auto change = [&](std::function<void(m::Swath&)> f) { return with(t.m, [&](auto& x) { f(mat(x)); }); };
  switch (sim::draw(OPS, 8)) {
    case 0: { int id = (g_ids++ * 7919) % 10007; perform(t, n + ".setId", [&](auto& o) { at(o).setId(id); }, change([&](m::Swath& s) { s.id = id; })); break; }
    case 1: {
      double w = static_cast<int>(sim::draw(OPS, 8)) - 1;
      perform(t, n + ".setWidth", [&](auto& o) { at(o).setWidth(w); }, change([&](m::Swath& s) { s.w = w; }), {}, w <= 0);
      break;
    }
    case 2: { m::Line l {drawPts(2, 4)}; F2CLineString k = lib(l); perform(t, n + ".setPath", [&](auto& o) { at(o).setPath(k); }, change([&](m::Swath& s) { s.p = l; })); break; }
    case 3: perform(t, n + ".reverse", [&](auto& o) { at(o).reverse(); }, change(m::reverse)); break;
    case 4: { bool d = sim::draw(OPS, 2); perform(t, n + ".setCreationDir", [&](auto& o) { at(o).setCreationDir(d); }, change([&](m::Swath& s) { s.dir = d; })); break; }
    case 5: { int k = sim::draw(OPS, 2); perform(t, n + ".setType", [&](auto& o) { at(o).setType(static_cast<f2c::types::SwathType>(k)); }, change([&](m::Swath& s) { s.type = k; })); break; }
    case 6: {
      auto& other = pick(g_all->swath);
      bool same = sim::draw(OPS, 2);
      bool rev = (mat(t.m).dir == other.m.dir) != same;
      perform(t, n + ".target", [&](auto& o) { if (same) at(o).targetSameDirAs(other.o); else at(o).targetOppositeDirAs(other.o); }, change([&](m::Swath& s) { if (rev) m::reverse(s); }));
      break;
    }
    default: perform(t, n + ".moveTo", [&](auto& o) { at(o).moveTo(*arg.at); }, change([&](m::Swath& s) { m::each(s, [&](m::P& q) { q.x += p.x; q.y += p.y; q.z += p.z; }); }));
  }
}
void swathOps(All& a) {
  auto& t = pick(a.swath);
  if (t.m.p.p.empty() || sim::draw(OPS, 8) == 7) { m::Swath s = drawSwath(); F2CLineString l = lib(s.p); perform(t, "swath.construct", [&](auto& o) { o = F2CSwath(l, s.w, s.id, static_cast<f2c::types::SwathType>(s.type)); }, s); return; }
  swathOn<SSwath>(t, "swath", [](F2CSwath& o) -> F2CSwath& { return o; }, [](m::Swath& x) -> m::Swath& { return x; });
  const auto& c = t.o; auto& x = t.m;
  expectEq(t, "numPoints()", std::to_string(x.p.p.size()), std::to_string(c.numPoints()));
  expectEq(t, "startPoint()", m::s(x.p.p.front()), ser::s(c.startPoint()));
  expectEq(t, "endPoint()", m::s(x.p.p.back()), ser::s(c.endPoint()));
  size_t i = sim::draw(OPS, x.p.p.size());
  expectEq(t, "getPoint()", m::s(x.p.p[i]), ser::s(c.getPoint(i)));
}
bool distinct(const m::Swaths& s) { for (size_t i = 0; i < s.s.size(); ++i) for (size_t j = 0; j < i; ++j) if (s.s[i].id == s.s[j].id) return false; return true; }
bool before(const m::P& a, const m::P& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }

void swathsOps(All& a) {
  auto& t = pick(a.swaths);
  size_t n = t.m.s.size();
  if (n > 12) { perform(t, "swaths.construct", [](auto& o) { o = F2CSwaths(); }, m::Swaths(), {}, false, true); return; }
  switch (sim::draw(OPS, 14)) {
    case 13: {
      // lines cut by squares
      int kind = sim::draw(OPS, 4), type = sim::draw(OPS, 2), rows = 1 + sim::draw(OPS, 3);
      double x0 = sim::draw(OPS, 20), len = 8 + sim::draw(OPS, 8);
      F2CCell sq(F2CLinearRing({F2CPoint(x0, 0), F2CPoint(x0 + len, 0), F2CPoint(x0 + len, 8), F2CPoint(x0, 8), F2CPoint(x0, 0)}));
      F2CCells sqs {sq};
      m::Lines in, out;
      for (int i = 0; i < (kind < 2 ? 1 : rows); ++i) {
        m::Line l, c;
        l.p = {{x0 - 5, 2.0 * i + 1, 0}, {x0 + len + 5, 2.0 * i + 1, 0}};
        c.p = {{x0, 2.0 * i + 1, 0}, {x0 + len, 2.0 * i + 1, 0}};
        in.l.push_back(l); out.l.push_back(c);
      }
      F2CLineString one = lib(in.l[0]);
      F2CMultiLineString all; for (auto& l : in.l) all.addGeometry(lib(l));
      std::vector<m::Swaths> mids; m::Swaths fin = t.m;
      for (auto& l : out.l) { m::Swath s; s.p = l; s.w = 2.5; s.id = fin.s.size(); s.type = type; fin.s.push_back(s); mids.push_back(fin); }
      auto ty = static_cast<f2c::types::SwathType>(type);
      perform(t, "swaths.append(cut)", [&](auto& o) {
        switch (kind) {
          case 0: o.append(one, sq, 2.5, ty); break;
          case 1: o.append(one, sqs, 2.5, ty); break;
          case 2: o.append(all, sq, 2.5, ty); break;
          default: o.append(all, sqs, 2.5, ty);
        } }, fin, mids);
      break;
    }
    case 0: { m::Swath s = drawSwath(); F2CSwath k = lib(s); perform(t, "swaths.push_back", [&](auto& o) { o.push_back(k); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 1: { m::Swath s = drawSwath(); F2CSwath k = lib(s); perform(t, "swaths.emplace_back", [&](auto& o) { o.emplace_back(k); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 2: { m::Swath s = drawSwath(); F2CLineString l = lib(s.p); perform(t, "swaths.emplace_back", [&](auto& o) { o.emplace_back(l, s.w, s.id, static_cast<f2c::types::SwathType>(s.type)); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 3: { m::Swath s = drawSwath(); s.id = n; F2CLineString l = lib(s.p); perform(t, "swaths.append(line)", [&](auto& o) { o.append(l, s.w, static_cast<f2c::types::SwathType>(s.type)); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 4: {
      auto& src = pick(a.lines);
      if (hollow(src.m)) break;
      int type = sim::draw(OPS, 2);
      std::vector<m::Swaths> mids; m::Swaths fin = t.m;
      for (auto& l : src.m.l) { m::Swath s; s.p = l; s.w = 1.5; s.id = fin.s.size(); s.type = type; fin.s.push_back(s); mids.push_back(fin); }
      perform(t, "swaths.append(lines)", [&](auto& o) { o.append(src.o, 1.5, static_cast<f2c::types::SwathType>(type)); }, fin, mids);
      break;
    }
    case 5: {
      // appended swaths are the same objects as before, so they are cloned, but
      // for a container appended to itself, which is renewed afterwards
      bool self = sim::draw(OPS, 3) == 2;
      m::Swaths add = self ? t.m : drawSwaths(0, 3);
      F2CSwaths k = self ? F2CSwaths() : lib(add);
      std::vector<m::Swaths> mids; m::Swaths fin = t.m;
      for (auto& s : add.s) { fin.s.push_back(s); mids.push_back(fin); }
      perform(t, self ? "swaths.append(itself)" : "swaths.append(swaths)", [&](auto& o) { o.append(self ? o : k); }, fin, mids);
      if (self) perform(t, "swaths.clone", [&](auto& o) { o = o.clone(); }, t.m, {}, false, true);
      break;
    }
    case 6: perform(t, "swaths.reverse", [](auto& o) { o.reverse(); }, with(t.m, [](auto& x) { std::reverse(x.s.begin(), x.s.end()); })); break;
    case 7: {
      bool ok = distinct(t.m);
      for (auto& s : t.m.s) ok &= !s.p.p.empty();
      if (!ok) break;
      std::vector<m::Swaths> mids;
      m::Swaths fin = t.m;
      for (auto& s : fin.s) if (before(s.p.p.back(), s.p.p.front())) { m::reverse(s); mids.push_back(fin); }
      std::sort(fin.s.begin(), fin.s.end(), [](const m::Swath& x, const m::Swath& y) { return x.id < y.id; });
      perform(t, "swaths.sort", [](auto& o) { o.sort(); }, fin, mids);
      break;
    }
    case 8: perform(t, "swaths.reverseDirOddSwaths", [](auto& o) { o.reverseDirOddSwaths(); }, with(t.m, [](auto& x) { for (size_t i = 1; i < x.s.size(); ++i) if (x.s[i].dir == x.s[i - 1].dir) m::reverse(x.s[i]); })); break;
    case 9: {
      m::P p = drawP();
      perform(t, "swaths.moveTo", [&](auto& o) { o.moveTo(lib(p)); }, with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x += p.x; q.y += p.y; q.z += p.z; }); }));
      break;
    }
    case 10: {
      if (n < 2) break;
      size_t i = sim::draw(OPS, n);
      if (i == 0) break;
      perform(t, "swaths.rotate", [&](auto& o) { std::rotate(o.begin(), o.begin() + i, o.end()); }, with(t.m, [&](auto& x) { std::rotate(x.s.begin(), x.s.begin() + i, x.s.end()); }), {}, false, true);
      break;
    }
    case 11: {
      // one of its own
      if (!n) break;
      size_t i = sim::draw(OPS, n);
      perform(t, "swaths.push_back(its own)", [&](auto& o) { o.push_back(o[i]); }, with(t.m, [&](auto& x) { x.s.push_back(m::Swath(x.s[i])); }));
      perform(t, "swaths.clone", [&](auto& o) { o = o.clone(); }, t.m, {}, false, true);
      break;
    }
    default: {
      if (!n) break;
      size_t i = sim::draw(OPS, n);
      if (t.m.s[i].p.p.empty()) break;
      swathOn<SSwaths>(t, "swaths[i]", [i](F2CSwaths& o) -> F2CSwath& { return o[i]; }, [i](m::Swaths& x) -> m::Swath& { return x.s[i]; });
    }
  }
  const auto& c = t.o;
  n = t.m.s.size();
  expectEq(t, "size()", std::to_string(n), std::to_string(c.size()));
  std::string x, y;
  for (auto& q : c) x += ser::s(q);
  for (auto& q : t.m.s) y += m::s(q);
  expectEq(t, "iteration", y, x);
  if (n) expectEq(t, "back()", m::s(t.m.s.back()), ser::s(c.back()));
  expectThrow("at() outside", [&] { c.at(n); });
}
void byOps(All& a) {
  auto& t = pick(a.by);
  size_t n = t.m.s.size();
  if (n > 8) { perform(t, "bycells.construct", [](auto& o) { o = F2CSwathsByCells(); }, m::ByCells(), {}, false, true); return; }
  switch (sim::draw(OPS, 6)) {
    case 4: case 5: {
      if (!n) break;
      size_t i = sim::draw(OPS, n);
      if (t.m.s[i].s.empty()) break;
      size_t j = sim::draw(OPS, t.m.s[i].s.size());
      size_t flat = j;
      for (size_t k = 0; k < i; ++k) flat += t.m.s[k].s.size();
      bool by_flat = sim::draw(OPS, 2);
      swathOn<SByCells>(t, by_flat ? "bycells.getSwath()" : "bycells[i][j]", [=](F2CSwathsByCells& o) -> F2CSwath& { return by_flat ? o.getSwath(flat) : o[i][j]; }, [=](m::ByCells& x) -> m::Swath& { return x.s[i].s[j]; });
      break;
    }
    case 0: { m::Swaths s = drawSwaths(0, 3); F2CSwaths k = lib(s); perform(t, "bycells.push_back", [&](auto& o) { o.push_back(k); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 1: { m::Swaths s = drawSwaths(1, 3); F2CSwaths k = lib(s); perform(t, "bycells.emplace_back", [&](auto& o) { o.emplace_back(k); }, with(t.m, [&](auto& x) { x.s.push_back(s); })); break; }
    case 2: perform(t, "bycells.reverse", [](auto& o) { o.reverse(); }, with(t.m, [](auto& x) { std::reverse(x.s.begin(), x.s.end()); })); break;
    default: {
      if (!n) break;
      size_t i = sim::draw(OPS, n);
      m::Swath s = drawSwath(); F2CSwath k = lib(s);
      perform(t, "bycells[i].push_back", [&](auto& o) { o[i].push_back(k); }, with(t.m, [&](auto& x) { x.s[i].s.push_back(s); }));
    }
  }
  const auto& c = t.o;
  std::vector<m::Swath> flat;
  for (auto& x : t.m.s) for (auto& q : x.s) flat.push_back(q);
  expectEq(t, "size()", std::to_string(t.m.s.size()), std::to_string(c.size()));
  expectEq(t, "sizeTotal()", std::to_string(flat.size()), std::to_string(c.sizeTotal()));
  expectEq(t, "flatten()", m::s(m::Swaths {flat}), ser::s(c.flatten()));
  if (!flat.empty()) { size_t i = sim::draw(OPS, flat.size()); expectEq(t, "getSwath()", m::s(flat[i]), ser::s(c.getSwath(i))); }
  expectThrow("getSwath() outside", [&] { c.getSwath(flat.size()); });
}

// The route's primitive steps, so that a failing composite may stop between.
struct RouteSteps {
  m::Route r; std::vector<m::Route> mids;
  void did() { mids.push_back(r); }
  void conn() { if (r.c.size() <= r.s.size()) { r.c.emplace_back(); did(); } }
  void conn(const m::P& p) { conn(); r.c.back().p.push_back(p); did(); }
  void conn(const m::Pts& v) { if (v.empty()) conn(); for (auto& p : v) conn(p); }
  void swaths(const m::Swaths& s) {
    if (r.c.empty()) { r.c.emplace_back(); did(); }
    if (r.c.size() > r.s.size()) { r.s.push_back(s); did(); }
    else for (auto& x : s.s) { r.s.back().s.push_back(x); did(); }
  }
  void swath(const m::Swath& s) {
    if (r.c.empty()) { r.c.emplace_back(); did(); }
    if (r.c.size() > r.s.size() || r.s.empty()) { r.s.emplace_back(); did(); }
    r.s.back().s.push_back(s); did();
  }
};
// Where a route starts and ends; false if it has no such point.
bool routeStart(const m::Route& x, m::P* p) {
  const m::Pts* l = !x.c.empty() && !x.c[0].p.empty() ? &x.c[0].p : !x.s.empty() && !x.s[0].s.empty() ? &x.s[0].s[0].p.p : nullptr;
  if (!l || l->empty()) return false;
  *p = l->front();
  return true;
}
bool routeEnd(const m::Route& x, m::P* p) {
  const m::Pts* l = x.c.size() > x.s.size() && !x.c.back().p.empty() ? &x.c.back().p : !x.s.empty() && !x.s.back().s.empty() ? &x.s.back().s.back().p.p : nullptr;
  if (!l || l->empty()) return false;
  *p = l->back();
  return true;
}
void routeOps(All& a) {
  auto& t = pick(a.route);
  if (t.m.s.size() + t.m.c.size() > 10) { perform(t, "route.construct", [](auto& o) { o = F2CRoute(); }, m::Route(), {}, false, true); return; }
  RouteSteps st {t.m, {}};
  switch (sim::draw(OPS, 17)) {
    case 16: {   // a swath reached over a graph
      m::Swath s = drawSwath(); F2CSwath k = lib(s);
      m::P from;
      if (!routeEnd(t.m, &from) && (!t.m.s.empty() || !t.m.c.empty())) break;
      const m::P to = s.p.p[0];
      if (std::hypot(from.x - to.x, from.y - to.y) < 1.0) break;
      F2CGraph2D g;
      g.addEdge(lib(from), lib(to));
      // two places over which the way is longer
      for (double d : {1.0, 2.0}) { F2CPoint via(from.x - d * (to.y - from.y), from.y + d * (to.x - from.x)); g.addEdge(lib(from), via); g.addEdge(via, lib(to)); }
      if (!t.m.s.empty() || !t.m.c.empty()) st.conn(m::Pts {from, to});
      st.swath(s);
      perform(t, "route.addSwath(graph)", [&](auto& o) { o.addSwath(k, g); }, st.r, st.mids);
      break;
    }
    case 14: case 15: {
      if (t.m.s.empty()) break;
      size_t i = sim::draw(OPS, t.m.s.size());
      if (t.m.s[i].s.empty()) break;
      size_t j = sim::draw(OPS, t.m.s[i].s.size());
      swathOn<SRoute>(t, "route.getSwaths()[j]", [i, j](F2CRoute& o) -> F2CSwath& { return o.getSwaths(i)[j]; }, [i, j](m::Route& x) -> m::Swath& { return x.s[i].s[j]; });
      break;
    }
    case 0: { m::Swaths s = drawSwaths(0, 3); F2CSwaths k = lib(s); st.swaths(s); perform(t, "route.addSwaths", [&](auto& o) { o.addSwaths(k); }, st.r, st.mids); break; }
    case 1: { st.swaths({}); perform(t, "route.addSwaths()", [&](auto& o) { o.addSwaths(); }, st.r, st.mids); break; }
    case 2: { m::Swaths s = drawSwaths(0, 3); F2CSwaths k = lib(s); m::Multi c {drawPts(0, 3)}; F2CMultiPoint mp = lib(c); st.conn(c.p); st.swaths(s); perform(t, "route.addConnectedSwaths", [&](auto& o) { o.addConnectedSwaths(mp, k); }, st.r, st.mids); break; }
    case 3: { m::Swath s = drawSwath(); F2CSwath k = lib(s); st.swath(s); perform(t, "route.addSwath", [&](auto& o) { o.addSwath(k); }, st.r, st.mids); break; }
    case 4: { st.conn(); perform(t, "route.addConnection()", [&](auto& o) { o.addConnection(); }, st.r, st.mids); break; }
    case 5: { PointArg arg; st.conn(arg.m); perform(t, "route.addConnection(point)", [&](auto& o) { o.addConnection(*arg.at); }, st.r, st.mids); break; }
    case 6: { m::Multi c {drawPts(0, 3)}; F2CMultiPoint mp = lib(c); st.conn(c.p); perform(t, "route.addConnection(multipoint)", [&](auto& o) { o.addConnection(mp); }, st.r, st.mids); break; }
    case 7: { auto c = drawPts(0, 3); auto v = lib(c); st.conn(c); perform(t, "route.addConnection(points)", [&](auto& o) { o.addConnection(v); }, st.r, st.mids); break; }
    case 8: {
      if (t.m.s.empty()) break;
      size_t i = sim::draw(OPS, t.m.s.size()); m::Swaths s = drawSwaths(0, 3); F2CSwaths k = lib(s);
      perform(t, "route.setSwaths", [&](auto& o) { o.setSwaths(i, k); }, with(t.m, [&](auto& x) { x.s[i] = s; }), {}, false, true); break;
    }
    case 9: {
      if (t.m.c.empty()) break;
      size_t i = sim::draw(OPS, t.m.c.size()); m::Multi c {drawPts(0, 3)}; F2CMultiPoint mp = lib(c);
      perform(t, "route.setConnection", [&](auto& o) { o.setConnection(i, mp); }, with(t.m, [&](auto& x) { x.c[i] = c; })); break;
    }
    case 10: {
      // parts of itself
      if (t.m.c.empty()) break;
      size_t i = sim::draw(OPS, t.m.c.size());
      m::Pts c = t.m.c[i].p;
      st.conn(c);
      perform(t, "route.addConnection(its own)", [&](auto& o) { o.addConnection(o.getConnection(i)); }, st.r, st.mids); break;
    }
    case 11: {
      if (t.m.s.empty()) break;
      size_t i = sim::draw(OPS, t.m.s.size());
      m::Swaths s = t.m.s[i];
      st.swaths(s);
      perform(t, "route.addSwaths(its own)", [&](auto& o) { o.addSwaths(o.getSwaths(i)); }, st.r, st.mids);
      perform(t, "route.clone", [&](auto& o) { o = o.clone(); }, t.m, {}, false, true);   // no shared swaths
      break;
    }
    case 12: {
      if (t.m.s.empty()) break;
      size_t i = sim::draw(OPS, t.m.s.size());
      if (t.m.s[i].s.empty()) break;
      size_t j = sim::draw(OPS, t.m.s[i].s.size());
      st.swath(m::Swath(t.m.s[i].s[j]));
      perform(t, "route.addSwath(its own)", [&](auto& o) { o.addSwath(o.getSwaths(i)[j]); }, st.r, st.mids);
      perform(t, "route.clone", [&](auto& o) { o = o.clone(); }, t.m, {}, false, true);
      break;
    }
    default: {
      if (t.m.c.empty()) break;
      m::P p = drawP();
      perform(t, "route.getLastConnection().addPoint", [&](auto& o) { o.getLastConnection().addPoint(lib(p)); }, with(t.m, [&](auto& x) { x.c.back().p.push_back(p); }));
    }
  }
  const auto& c = t.o; auto& x = t.m;
  expectEq(t, "sizes", std::to_string(x.s.size()) + "," + std::to_string(x.c.size()), std::to_string(c.sizeVectorSwaths()) + "," + std::to_string(c.sizeConnections()));
  expectEq(t, "isEmpty()", std::to_string(x.s.empty() && x.c.empty()), std::to_string(c.isEmpty()));
  m::Line l;
  auto add = [&](const m::Pts& v) { l.p.insert(l.p.end(), v.begin(), v.end()); };
  if (!x.c.empty()) add(x.c[0].p);
  for (size_t i = 0; i < x.s.size(); ++i) { for (auto& q : x.s[i].s) add(q.p.p); if (i + 1 < x.c.size()) add(x.c[i + 1].p); }
  expectEq(t, "asLineString()", m::s(l), ser::s(c.asLineString()));
  m::P at;
  if (routeStart(x, &at)) expectEq(t, "startPoint()", m::s(at), ser::s(c.startPoint()));
  if (routeEnd(x, &at)) expectEq(t, "endPoint()", m::s(at), ser::s(c.endPoint()));
}
// coordinates on a grid, so that relative and absolute positions are exact
m::Cells gridCells() {
  m::Cells c;
  for (int i = 0, n = 1 + sim::draw(OPS, 2); i < n; ++i) {
    m::Cell k;
    for (int j = 0, h = 1 + sim::draw(OPS, 2); j < h; ++j) { m::Ring r; for (int p = 0; p < 4; ++p) r.p.push_back({0.25 * sim::draw(OPS, 400), 0.25 * sim::draw(OPS, 400), 0}); k.r.push_back(m::closed(r)); }
    c.c.push_back(k);
  }
  return c;
}
F2CCells lib(const m::Cells& c) { F2CCells r; for (auto& x : c.c) r.addGeometry(lib(x)); return r; }
void rel(m::Field& f, const m::Cells& abs) {
  f.ref = abs.c[0].r[0].p[0];
  f.has_ref = true;
  f.cells = abs;
  m::each(f.cells, [&](m::P& p) { p.x -= f.ref.x; p.y -= f.ref.y; p.z -= f.ref.z; });
}
void fieldOps(All& a) {
  auto& t = pick(a.field);
  std::string w = word();
  switch (sim::draw(OPS, 9)) {
    case 0: perform(t, "field.setId", [&](auto& o) { o.setId(w); }, with(t.m, [&](auto& x) { x.id = w; })); break;
    case 1: perform(t, "field.setCRS", [&](auto& o) { o.setCRS(w); }, with(t.m, [&](auto& x) { x.crs = w; })); break;
    case 2: perform(t, "field.setPrevCRS", [&](auto& o) { o.setPrevCRS(w); }, with(t.m, [&](auto& x) { x.prev = w; })); break;
    case 3: { m::P p {0.25 * sim::draw(OPS, 400), 0.25 * sim::draw(OPS, 400), 0}; F2CPoint q = lib(p); perform(t, "field.setRefPoint", [&](auto& o) { o.setRefPoint(q); }, with(t.m, [&](auto& x) { x.ref = p; x.has_ref = true; })); break; }
    case 4: { auto c = gridCells(); auto k = lib(c); perform(t, "field.setField", [&](auto& o) { o.setField(k); }, with(t.m, [&](auto& x) { x.cells = c; })); break; }
    case 5: { auto c = gridCells(); auto k = lib(c); m::Field f; f.id = w; rel(f, c); perform(t, "field.construct", [&](auto& o) { o = F2CField(k, w); }, f); break; }
    case 6: { int e = 4000 + sim::draw(OPS, 1000); perform(t, "field.setEPSGCoordSystem", [&](auto& o) { o.setEPSGCoordSystem(e); }, with(t.m, [&](auto& x) { x.crs = "EPSG:" + std::to_string(e); })); break; }
    case 7: { auto k = drawCell(); F2CCell c = lib(k); perform(t, "field.getField().addGeometry", [&](auto& o) { o.getField().addGeometry(c); }, with(t.m, [&](auto& x) { x.cells.c.push_back(k); })); 
      auto g = gridCells(); auto gl = lib(g); perform(t, "field.setField", [&](auto& o) { o.setField(gl); }, with(t.m, [&](auto& x) { x.cells = g; }), {}, false, true); break; }
    default: {
      if (a.field.size() >= 4) a.field.erase(a.field.begin() + sim::draw(OPS, 4));
      size_t from = sim::draw(OPS, a.field.size());
      a.field.push_back(std::make_unique<SField>());
      SField& src = *a.field[from];
      m::Field f = src.m;
      f.has_ref = true;   // that of an empty field is (0, 0)
      if (!hollow(f.cells)) { m::Cells abs = f.cells; m::each(abs, [&](m::P& p) { p.x += f.ref.x; p.y += f.ref.y; p.z += f.ref.z; }); rel(f, abs); }
      perform(*a.field.back(), "field.clone", [&](auto& o) { o = src.o.clone(); }, f);
    }
  }
}
void robotOps(All& a) {
  auto& t = pick(a.robot);
  double v = 0.25 * (1 + sim::draw(OPS, 20));
  std::string w = word();
  switch (sim::draw(OPS, 10)) {
    case 0: perform(t, "robot.setName", [&](auto& o) { o.setName(w); }, with(t.m, [&](auto& x) { x.name = w; })); break;
    case 1: perform(t, "robot.setWidth", [&](auto& o) { o.setWidth(v); }, with(t.m, [&](auto& x) { x.w = v; })); break;
    case 2: perform(t, "robot.setCovWidth", [&](auto& o) { o.setCovWidth(v); }, with(t.m, [&](auto& x) { x.cov = v; })); break;
    case 3: perform(t, "robot.setCruiseVel", [&](auto& o) { o.setCruiseVel(v); }, with(t.m, [&](auto& x) { x.vel = v; })); break;
    case 4: perform(t, "robot.setTurnVel", [&](auto& o) { o.setTurnVel(v); }, with(t.m, [&](auto& x) { x.turn = v; })); break;
    case 5: perform(t, "robot.setMaxCurv", [&](auto& o) { o.setMaxCurv(-v); }, with(t.m, [&](auto& x) { x.curv = v; })); break;
    case 6: perform(t, "robot.setMaxDiffCurv", [&](auto& o) { o.setMaxDiffCurv(v); }, with(t.m, [&](auto& x) { x.diff = v; })); break;
    case 7: perform(t, "robot.construct", [&](auto& o) { o = F2CRobot(v, 0, 0.5, 0.2); }, [&] { m::Robot r; r.w = r.cov = v; r.curv = 0.5; r.diff = 0.2; return r; }()); break;
    case 8: perform(t, "robot.construct", [&](auto& o) { o = F2CRobot(-v); }, t.m, {}, true); break;
    default: { auto& src = pick(a.robot); perform(t, "robot.assign", [&](auto& o) { o = src.o; }, src.m); }
  }
}
// Angles are only equal up to the way they are normalised.
void pathPerform(SPath& t, const std::string& n, std::function<void(F2CPath&)> act, m::Path fin, std::vector<m::Path> mids = {}, bool no_fault = false) {
  perform(t, n, [&](F2CPath& o) {
    act(o);
    for (size_t i = 0; i < o.size() && i < fin.s.size(); ++i)
      if (std::fabs(std::remainder(o[i].angle - fin.s[i].a, 2 * M_PI)) < 1e-9) o[i].angle = fin.s[i].a;
  }, fin, mids, false, no_fault);
}
void pathOps(All& a) {
  auto& t = pick(a.path);
  size_t n = t.m.s.size();
  if (n > 14) { pathPerform(t, "path.construct", [](auto& o) { o = F2CPath(); }, m::Path(), {}, true); return; }
  m::State st = drawState();
  auto ls = lib(st);
  switch (sim::draw(OPS, 18)) {
    case 17: {   // loading adds all states of a file, or none
      auto& src = pick(a.path);
      std::string f = sim::scratchName("p12");
      { sim::AllocPause q; src.o.saveToFile(f, 17); }
      m::Path fin = t.m;
      auto add = src.m.s;
      for (auto& x : add) fin.s.push_back(x);
      pathPerform(t, "path.loadFile", [&](auto& o) { o.loadFile(f); }, fin);
      ::unlink(f.c_str());
      break;
    }
    case 0: pathPerform(t, "path.addState", [&](auto& o) { o.addState(ls); }, with(t.m, [&](auto& x) { x.s.push_back(st); })); break;
    case 1: { PointArg arg; st.p = arg.m; pathPerform(t, "path.addState", [&](auto& o) { o.addState(*arg.at, st.a, st.l, ls.dir, ls.type, st.v); }, with(t.m, [&](auto& x) { x.s.push_back(st); })); break; }
    case 2: { if (!n) break; size_t i = sim::draw(OPS, n); pathPerform(t, "path.setState", [&](auto& o) { o.setState(i, ls); }, with(t.m, [&](auto& x) { x.s[i] = st; })); break; }
    case 3: { m::Path p; std::vector<f2c::types::PathState> v; for (int i = 0, k = sim::draw(OPS, 5); i < k; ++i) { p.s.push_back(drawState()); v.push_back(lib(p.s.back())); } pathPerform(t, "path.setStates", [&](auto& o) { o.setStates(v); }, p, {}, true); break; }
    case 4: case 5: {
      auto& src = pick(a.path);
      std::vector<m::Path> mids; m::Path fin = t.m;
      auto add = src.m.s;
      for (auto& x : add) { fin.s.push_back(x); mids.push_back(fin); }
      pathPerform(t, &src == &t ? "path.append(itself)" : "path.append", [&](auto& o) { o += src.o; }, fin, mids);
      break;
    }
    case 6: { m::P p = drawP(); pathPerform(t, "path.moveTo", [&](auto& o) { o.moveTo(lib(p)); }, with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x += p.x; q.y += p.y; q.z += p.z; }); })); break; }
    case 7: pathPerform(t, "path.mirrorX", [&](auto& o) { o.mirrorX(); }, with(t.m, [&](auto& x) { for (auto& q : x.s) { q.p.x = -q.p.x; q.a = M_PI - q.a; } })); break;
    case 8: pathPerform(t, "path.mirrorY", [&](auto& o) { o.mirrorY(); }, with(t.m, [&](auto& x) { for (auto& q : x.s) { q.p.y = -q.p.y; q.a = -q.a; } })); break;
    case 9: { int k = sim::draw(OPS, 4); pathPerform(t, "path.setAll", [&](auto& o) { if (k == 0) o.setBackwardDir(); else if (k == 1) o.setForwardDir(); else if (k == 2) o.setTurnType(); else o.setSwathType(); },
        with(t.m, [&](auto& x) { for (auto& q : x.s) { if (k == 0) q.dir = -1; else if (k == 1) q.dir = 1; else q.type = k == 2 ? 2 : 1; } })); break; }
    case 10: {
      auto& src = pick(a.swath);
      if (src.m.p.p.size() < 2) break;
      std::vector<m::Path> mids; m::Path fin = t.m;
      auto& v = src.m.p.p;
      bool same = false;
      for (size_t i = 0; i + 1 < v.size(); ++i) {
        same |= std::hypot(v[i].x - v[i + 1].x, v[i].y - v[i + 1].y) < 1e-4;
        m::State q; q.p = v[i]; q.v = 1.25; q.a = std::atan2(v[i + 1].y - v[i].y, v[i + 1].x - v[i].x);
        q.l = std::hypot(v[i + 1].x - v[i].x, v[i + 1].y - v[i].y);
        fin.s.push_back(q); mids.push_back(fin);
      }
      if (same) break;
      // lengths and angles up to rounding: taken over once they agree
      F2CPath probe;
      probe.appendSwath(src.o, 1.25);
      if (probe.size() != v.size() - 1) sim::violation("content", "path.appendSwath of %zu points added %zu states", v.size(), probe.size());
      for (size_t i = 0; i < probe.size(); ++i) {
        size_t at = n + i;
        if (std::fabs(probe[i].len - fin.s[at].l) > 1e-9 * (1 + fin.s[at].l) || std::fabs(std::remainder(probe[i].angle - fin.s[at].a, 2 * M_PI)) > 1e-6)
          sim::violation("content", "path.appendSwath: state %zu has length %g angle %g, expected %g %g", i, probe[i].len, probe[i].angle, fin.s[at].l, fin.s[at].a);
        fin.s[at].l = probe[i].len; fin.s[at].a = probe[i].angle;
        for (size_t k = i; k < mids.size(); ++k) mids[k].s[at] = fin.s[at];
      }
      pathPerform(t, "path.appendSwath", [&](auto& o) { o.appendSwath(src.o, 1.25); }, fin, mids);
      break;
    }
    case 11: {
      // moved and turned by the points of its own states too
      if (!n) break;
      size_t i = sim::draw(OPS, n);
      m::P p = t.m.s[i].p;
      if (sim::draw(OPS, 2)) { pathPerform(t, "path.moveTo(its own)", [&](auto& o) { o.moveTo(o[i].point); }, with(t.m, [&](auto& x) { m::each(x, [&](m::P& q) { q.x += p.x; q.y += p.y; q.z += p.z; }); })); break; }
      double ang = 0.1 * sim::draw(OPS, 60);
      bool own = sim::draw(OPS, 2);
      if (!own) p = drawP();
      m::Path fin = t.m;
      // up to rounding: taken over once it agrees
      F2CPath probe = t.o;
      probe.rotateFromPoint(lib(p), ang);
      for (size_t k = 0; k < n && k < probe.size(); ++k) {
        auto& q = fin.s[k];
        double x = q.p.x - p.x, y = q.p.y - p.y;
        q.p = {p.x + x * std::cos(ang) - y * std::sin(ang), p.y + x * std::sin(ang) + y * std::cos(ang), 0};
        q.a += ang;
        auto g = probe[k].point;
        double tol = 1e-9 * (1 + std::fabs(x) + std::fabs(y) + std::fabs(p.x) + std::fabs(p.y));
        if (std::fabs(g.getX() - q.p.x) > tol || std::fabs(g.getY() - q.p.y) > tol)
          sim::violation("content", "path.rotateFromPoint: state %zu at %s, expected %s", k, ser::s(g).c_str(), m::s(q.p).c_str());
        q.p = {g.getX(), g.getY(), g.getZ()};
      }
      pathPerform(t, own ? "path.rotateFromPoint(its own)" : "path.rotateFromPoint", [&](auto& o) { o.rotateFromPoint(own ? o[i].point : lib(p), ang); }, fin);
      break;
    }
    case 12: {
      if (n < 2) break;
      size_t i = sim::draw(OPS, n), k = sim::draw(OPS, n);
      if (i == k) break;
      pathPerform(t, "path.swap", [&](auto& o) { std::swap(o[i], o[k]); }, with(t.m, [&](auto& x) { std::swap(x.s[i], x.s[k]); }));
      break;
    }
    case 13: {
      // states closer together than this are one
      double d = 0.5 * sim::draw(OPS, 40);
      m::Path fin;
      for (auto& q : t.m.s) {
        if (!fin.s.empty()) {
          auto& b = fin.s.back();
          double x = b.p.x - q.p.x, y = b.p.y - q.p.y, z = b.p.z - q.p.z; (void)z;
          double dist = std::hypot(x, y);
          if (std::fabs(dist - d) < 1e-6) return;
          if (b.type == q.type && b.dir == q.dir && dist < d) { b.l += q.l; continue; }
        }
        fin.s.push_back(q);
      }
      pathPerform(t, "path.reduce", [&](auto& o) { o.reduce(d); }, fin);
      break;
    }
    case 14: case 15: {
      // as many states as asked for, whatever they are
      if (n < 3) break;
      int k = 1 + sim::draw(OPS, 9);
      F2CPath probe = t.o;
      bool throws = false;
      sim::allocCountStart();
      try { probe.populate(k); } catch (const std::exception&) { throws = true; }
      { uint64_t c = sim::allocCountStop(); auto& most = g_allocs["path.populate"]; most = std::max(most, c); }
      if (throws) break;
      double len = 0, was = 0;
      m::Path fin;
      for (auto& q : t.m.s) was += q.l;
      for (auto& q : probe) {
        len += q.len;
        fin.s.push_back({{q.point.getX(), q.point.getY(), q.point.getZ()}, q.angle, q.len, q.velocity, static_cast<int>(q.dir), static_cast<int>(q.type)});
      }
      if (!throws && (probe.size() != size_t(k) || std::fabs(len - was) > 1e-6 * (1 + was)))
        sim::violation("content", "path.populate(%d) made %zu states with length %g of %zu with %g", k, probe.size(), len, n, was);
      pathPerform(t, "path.populate", [&](auto& o) { o.populate(k); }, fin);
      break;
    }
    default: { auto& src = pick(a.path); pathPerform(t, "path.assign", [&](auto& o) { o = src.o; }, src.m, {}, true); }
  }
  const auto& c = t.o; auto& x = t.m;
  expectEq(t, "size()", std::to_string(x.s.size()), std::to_string(c.size()));
  if (!x.s.empty()) { expectEq(t, "atStart()", m::s(x.s[0].p), ser::s(c.atStart())); expectEq(t, "back()", m::s(x.s.back().p), ser::s(c.back().point)); }
  double len = 0;
  for (auto& q : x.s) len += std::fabs(q.l);
  if (std::fabs(len - c.length()) > 1e-9 * (1 + len)) sim::violation("query", "path.length() is %g, expected %g", c.length(), len);
}
void stripOps(All& a) {
  auto& t = pick(a.strip);
  std::string w = word();
  switch (sim::draw(OPS, 3)) {
    case 0: perform(t, "strip.setName", [&](auto& o) { o.setName(w); }, with(t.m, [&](auto& x) { x.name = w; })); break;
    case 1: { auto c = drawCell(); auto k = lib(c); perform(t, "strip.setCell", [&](auto& o) { o.setCell(k); }, with(t.m, [&](auto& x) { x.c = c; })); break; }
    default: { if (hollow(t.m.c)) break; double b = 2; perform(t, "strip.getCell().scale", [&](auto& o) { o.getCell() *= b; }, with(t.m, [&](auto& x) { m::each(x.c, [&](m::P& q) { q.x *= b; q.y *= b; q.z *= b; }); })); }
  }
}
}  // namespace

void propertyRun() {
  All a;
  g_all = &a;
  // a few families per run, so that objects meet
  uint32_t family = sim::draw(OPS, 5);
  fresh(a.point); fresh(a.line); fresh(a.ring); fresh(a.multi); fresh(a.lines); fresh(a.cell); fresh(a.cells); fresh(a.swath); fresh(a.swaths); fresh(a.by); fresh(a.route); fresh(a.field); fresh(a.robot); fresh(a.path); fresh(a.strip);
  uint32_t n = 5 + sim::draw(OPS, 40);
  for (uint32_t i = 0; i < n; ++i) {
    uint32_t k = sim::draw(OPS, 4);
    if (k == 3 && sim::draw(OPS, 3) == 2) {
      switch (sim::draw(OPS, 15)) {
        case 14: fresh(a.point); break;
        case 0: fresh(a.line); break; case 1: fresh(a.ring); break; case 2: fresh(a.multi); break; case 3: fresh(a.lines); break;
        case 4: fresh(a.cell); break; case 5: fresh(a.cells); break; case 6: fresh(a.swath); break; case 7: fresh(a.swaths); break;
        case 8: fresh(a.route); break; case 9: fresh(a.field); break; case 10: fresh(a.robot); break; case 11: fresh(a.path); break; default: fresh(a.strip);
      }
      continue;
    }
    bool clone = sim::draw(OPS, 8) == 7;
    if (sim::draw(OPS, 6) == 5) { pointObjOps(a); continue; }
    if (family == 0) {
      switch (sim::draw(OPS, 4)) {
        case 0: clone ? cloneInto(a.line, "line") : lineOps(a); break;
        case 1: clone ? cloneInto(a.ring, "ring") : ringOps(a); break;
        case 2: clone ? cloneInto(a.multi, "multipoint") : multiOps(a); break;
        default: clone ? cloneInto(a.lines, "lines") : linesOps(a);
      }
    } else if (family == 1) {
      switch (sim::draw(OPS, 3)) {
        case 0: clone ? cloneInto(a.cell, "cell") : cellOps(a); break;
        case 1: clone ? cloneInto(a.cells, "cells") : cellsOps(a); break;
        default: clone ? cloneInto(a.strip, "strip") : stripOps(a);
      }
    } else if (family == 2) {
      switch (sim::draw(OPS, 4)) {
        case 0: clone ? cloneInto(a.swath, "swath") : swathOps(a); break;
        case 1: case 2: clone ? cloneInto(a.swaths, "swaths") : swathsOps(a); break;
        default: sim::draw(OPS, 2) ? (clone ? cloneInto(a.by, "bycells") : byOps(a)) : linesOps(a);
      }
    } else if (family == 3) {
      clone ? cloneInto(a.route, "route") : routeOps(a);
    } else {
      switch (sim::draw(OPS, 4)) {
        case 0: fieldOps(a); break;
        case 1: robotOps(a); break;
        case 2: sim::draw(OPS, 4) ? pathOps(a) : swathOps(a); break;
        default: pathOps(a);
      }
    }
  }
}
