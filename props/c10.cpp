// variant=asan uses=ops,ser,jobs,solver
// Histories of turns on several planners (library planners and a user-supplied
// one), with changes of settings, of robots, copies of planners, and failing
// allocations and curve planners in between. Oracle: a fresh planner without
// cache, for the request itself or for an earlier one that rounds to the same
// millimetres and milliradians; and the geometry of the request.
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <memory>
#include "fault.h"
#include "jobs.h"
const char* const kProperty = "C10";
using sim::OPS;
using sim::FAULT;

namespace {
// A user's planner: a smooth curve that depends on everything a planner is told.
struct Smooth : f2c::pp::TurningBase {
  F2CPath createSimpleTurn(const F2CRobot& robot, double dist, double a0, double a1) override {
    callbackPoint();
    F2CPath p;
    int n = 3 + static_cast<int>(0.3 / discretization);
    double h = 0.3 + 1.0 / (0.2 + robot.getMaxCurv()) + 0.1 * robot.getMaxDiffCurv();
    for (int i = 0; i <= n; ++i) {
      double u = static_cast<double>(i) / n, v = 1 - u;
      f2c::types::PathState st;
      // a cubic Bezier from (0, 0) to (dist, 0)
      double x1 = h * std::cos(a0), y1 = h * std::sin(a0), x2 = dist - h * std::cos(a1), y2 = -h * std::sin(a1);
      st.point = F2CPoint(3 * v * v * u * x1 + 3 * v * u * u * x2 + u * u * u * dist, 3 * v * v * u * y1 + 3 * v * u * u * y2);
      double dx = 3 * v * v * x1 + 6 * v * u * (x2 - x1) + 3 * u * u * (dist - x2), dy = 3 * v * v * y1 + 6 * v * u * (y2 - y1) - 3 * u * u * y2;
      st.angle = std::atan2(dy, dx);
      st.velocity = robot.getTurnVel();
      if (i) p[i - 1].len = p[i - 1].point.distance(st.point);
      st.type = f2c::types::PathSectionType::TURN;
      p.addState(st);
      if (i == n / 2) callbackPoint();
    }
    return p;
  }
};
using Base = f2c::pp::TurningBase;
const char* kKinds[] = {"dubins", "dubins_cc", "reeds_shepp", "reeds_shepp_hc", "user"};
std::unique_ptr<Base> make(int kind) {
  switch (kind) {
    case 0: return std::make_unique<f2c::pp::DubinsCurves>();
    case 1: return std::make_unique<f2c::pp::DubinsCurvesCC>();
    case 2: return std::make_unique<f2c::pp::ReedsSheppCurves>();
    case 3: return std::make_unique<f2c::pp::ReedsSheppCurvesHC>();
    default: return std::make_unique<Smooth>();
  }
}
template <class T> std::unique_ptr<Base> copyAs(const Base& b) { return std::make_unique<T>(dynamic_cast<const T&>(b)); }
std::unique_ptr<Base> copyOf(int kind, const Base& b) {
  switch (kind) {
    case 0: return copyAs<f2c::pp::DubinsCurves>(b);
    case 1: return copyAs<f2c::pp::DubinsCurvesCC>(b);
    case 2: return copyAs<f2c::pp::ReedsSheppCurves>(b);
    case 3: return copyAs<f2c::pp::ReedsSheppCurvesHC>(b);
    default: return copyAs<Smooth>(b);
  }
}

struct Robot3 { double curv, diff, vel; };
// A request in the planners' normal form.
struct Normal { double dist, a0, a1; Robot3 r; double disc; };
struct Planner {
  int kind;
  std::unique_ptr<Base> p;
  double disc {0.01};
  bool cache {true};
  std::vector<Normal> past;
  int failed {0};
};

F2CRobot robotOf(const Robot3& r) {
  F2CRobot b(2.0, 2.5);
  b.setMaxCurv(r.curv); b.setMaxDiffCurv(r.diff); b.setCruiseVel(r.vel + 0.7); b.setTurnVel(r.vel);
  return b;
}
double wrap(double a) { a = std::fmod(a, 2 * M_PI); return a < 0 ? a + 2 * M_PI : a; }
double adiff(double a, double b) { double d = wrap(a - b); return std::min(d, 2 * M_PI - d); }
bool sameKey(const Normal& a, const Normal& b) {
  const double e = 1e-3 + 1e-9;
  auto near = [&](double x, double y) { return std::fabs(x - y) <= e; };
  return near(a.dist, b.dist) && near(a.a0, b.a0) && near(a.a1, b.a1) && near(a.r.curv, b.r.curv) &&
    near(a.r.diff, b.r.diff) && near(a.r.vel, b.r.vel) && std::fabs(a.disc - b.disc) < 2e-6;
}
F2CPath freshSimple(int kind, const Normal& n) {
  auto p = make(kind);
  p->setUsingCache(false);
  p->setDiscretization(n.disc);
  F2CRobot r = robotOf(n.r);
  return p->createSimpleTurn(r, n.dist, n.a0, n.a1);
}
// "" or where they differ
std::string pathDiff(const F2CPath& a, const F2CPath& b, double tol) {
  if (a.size() != b.size()) return std::to_string(b.size()) + " states instead of " + std::to_string(a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    const auto &x = a.getState(i), &y = b.getState(i);
    double d = std::hypot(x.point.getX() - y.point.getX(), x.point.getY() - y.point.getY());
    char buf[200];
    if (!(d <= tol) || !(adiff(x.angle, y.angle) <= tol) || !(std::fabs(x.len - y.len) <= tol) ||
        !(std::fabs(x.velocity - y.velocity) <= 1e-9) || x.dir != y.dir || x.type != y.type) {
      snprintf(buf, sizeof buf, "state %zu: (%.6f %.6f) angle %.6f len %.6f vel %.4f instead of (%.6f %.6f) angle %.6f len %.6f vel %.4f",
        i, y.point.getX(), y.point.getY(), y.angle, y.len, y.velocity, x.point.getX(), x.point.getY(), x.angle, x.len, x.velocity);
      return buf;
    }
  }
  return "";
}
// The states of b all lie on a's line (where exactly they lie on it hangs on the
// last digit of lengths).
std::string apart(const F2CPath& a, const F2CPath& b) {
  size_t j = 0;
  auto dist = [&](size_t k, const F2CPoint& p) {
    const auto &u = a.getState(k).point, &v = a.getState(std::min(k + 1, a.size() - 1)).point;
    double dx = v.getX() - u.getX(), dy = v.getY() - u.getY(), l = dx * dx + dy * dy;
    double t = l > 0 ? std::min(1.0, std::max(0.0, ((p.getX() - u.getX()) * dx + (p.getY() - u.getY()) * dy) / l)) : 0;
    return std::hypot(u.getX() + t * dx - p.getX(), u.getY() + t * dy - p.getY());
  };
  for (size_t i = 0; i < b.size(); ++i) {
    double best = HUGE_VAL;
    size_t at = j;
    for (size_t k = j; k < std::min(a.size(), j + 12); ++k) { double d = dist(k, b.getState(i).point); if (d < best) { best = d; at = k; } if (d < 1e-6) break; }
    if (!(best < 0.02)) {
      char buf[100];
      snprintf(buf, sizeof buf, "state %zu at (%.4f %.4f) is %.4f off", i, b.getState(i).point.getX(), b.getState(i).point.getY(), best);
      return buf;
    }
    j = at;
  }
  return "";
}
// The turn in its place, as a user would put it there.
F2CPath placed(F2CPath p, const F2CPoint& s, const F2CPoint& e, double rot, bool mirror) {
  if (p.size() <= 1) return F2CPath();
  for (size_t i = 0; i < p.size(); ++i) {
    auto& st = p[i];
    double x = st.point.getX(), y = mirror ? -st.point.getY() : st.point.getY(), a = mirror ? -st.angle : st.angle;
    st.point = F2CPoint(s.getX() + x * std::cos(rot) - y * std::sin(rot), s.getY() + x * std::sin(rot) + y * std::cos(rot));
    st.angle = wrap(a + rot);
  }
  if (std::hypot(p[0].point.getX() - s.getX(), p[0].point.getY() - s.getY()) < 0.05) p[0].point = s;
  auto& b = p[p.size() - 1];
  if (std::hypot(b.point.getX() - e.getX(), b.point.getY() - e.getY()) < 0.05) b.point = e;
  return p;
}
std::string text(const Normal& n) {
  char b[200];
  snprintf(b, sizeof b, "dist %.6f angles %.6f %.6f curv %.5f %.5f vel %.4f disc %.4f", n.dist, n.a0, n.a1, n.r.curv, n.r.diff, n.r.vel, n.disc);
  return b;
}
struct Shape { double dist, a0, a1; };
// angles away from the two where a turn may lie on either side
double angleBetween(double lo) { return lo + 0.05 + (M_PI - 0.1) * sim::draw(OPS, 4000) / 4000.0 + 1.2345e-4; }

// Runs f with a fault armed; true when f threw because of it.
template <class F> bool withFault(Planner& pl, int what, F f) {
  bool threw = false;
  uint64_t fired;
  if (what == 1) {
    uint32_t span = sim::draw(FAULT, 2) ? 40 : 2000;
    uint64_t k = 1 + sim::draw(FAULT, span), n = 1 + sim::draw(FAULT, 3);
    sim::allocArm(k, n);
    try { f(); } catch (...) { threw = true; }
    fired = sim::allocDisarm();
    if (fired) sim::count("fault.alloc", fired);
  } else {
    callbackArm(1 + sim::draw(FAULT, 2), 1, sim::draw(FAULT, 5));
    try { f(); } catch (...) { threw = true; }
    fired = callbackDisarm();
    if (fired) sim::count("fault.callback", fired);
  }
  if (threw && !fired) sim::violation("failed-alone", "%s planner threw although nothing failed", kKinds[pl.kind]);
  if (fired && !threw) sim::violation("failure-hidden", "%s planner returned although %s failed inside", kKinds[pl.kind], what == 1 ? "an allocation" : "the curve planner");
  if (fired) { ++pl.failed; sim::nontrivial(); }
  return threw;
}
}  // namespace

void propertyInit() {}
void propertyRun() {
  bool jitter = sim::draw(OPS, 2);
  std::vector<Robot3> robots;
  int nr = 1 + sim::draw(OPS, 3);
  for (int i = 0; i < nr; ++i) {
    Robot3 r {0.2 + 0.01 * sim::draw(OPS, 150), 0.2 + 0.01 * sim::draw(OPS, 300), 0.5 + 0.01 * sim::draw(OPS, 300)};
    // robots that differ in one thing only
    if (i && sim::draw(OPS, 2)) {
      r = robots[0];
      double d = (sim::draw(OPS, 2) ? 1 : -1) * (sim::draw(OPS, 2) ? 0.0021 : 0.1);
      switch (sim::draw(OPS, 3)) { case 0: r.curv += d; break; case 1: r.diff += d; break; default: r.vel += d; }
    }
    robots.push_back(r);
  }
  std::vector<Shape> shapes;
  // now and then as many turns as a large field takes
  const bool many = sim::draw(OPS, 16) == 15;
  int ns = many ? 40 + sim::draw(OPS, 260) : 1 + sim::draw(OPS, 5);
  for (int i = 0; i < ns; ++i) {
    Shape s {0.5 + 0.0123 * sim::draw(OPS, sim::draw(OPS, 6) ? 400 : 2000), 0, 0};
    // ... or the ends closer to each other than a turn's may be off
    if (sim::draw(OPS, 12) == 11) s.dist = 0.021 + 0.0021 * sim::draw(OPS, 20);
    if (sim::draw(OPS, 2)) { s.a0 = M_PI / 2; s.a1 = 1.5 * M_PI; s.dist += 1e-4 * (1 + sim::draw(OPS, 8)); }
    else { s.a0 = angleBetween(0); s.a1 = angleBetween(sim::draw(OPS, 2) ? 0 : M_PI); }
    if (i && sim::draw(OPS, 2)) {
      // nearly the same turn
      s = shapes[sim::draw(OPS, i)];
      double d = (sim::draw(OPS, 2) ? 1 : -1) * (jitter ? 0.0004 * (1 + sim::draw(OPS, 6)) : 0.011 * (1 + sim::draw(OPS, 30)));
      switch (sim::draw(OPS, 3)) { case 0: s.dist += d; break; case 1: s.a0 += d; break; default: s.a1 += d; }
      if (s.dist < 0.02) s.dist = 0.5;
      if (s.a0 > M_PI - 0.02 || s.a0 < 0.02) s.a0 = 1.0;
      s.a1 = wrap(s.a1);
    }
    shapes.push_back(s);
  }
  std::vector<Planner> pls;
  pls.reserve(8);
  const double discs[] = {0.1, 0.05, 0.25, 0.2, 0.13, 0.104, 0.5, 0.02};
  auto add = [&](int kind) {
    Planner p; p.kind = kind; p.p = make(kind);
    if (sim::draw(OPS, 8)) p.p->setDiscretization(p.disc = discs[sim::draw(OPS, 8)]);
    pls.push_back(std::move(p));
  };
  static const int kFirst[] = {4, 0, 4, 1, 2, 3};
  add(many ? 4 : kFirst[sim::draw(OPS, 6)]);
  if (sim::draw(OPS, 2) && !many) add(kFirst[sim::draw(OPS, 6)]);

  std::string history;
  int steps = many ? ns + sim::draw(OPS, ns) : 3 + sim::draw(OPS, 18);
  size_t next = 0;
  if (many) sim::count("probe.long_history");
  for (int step = 0; step < steps; ++step) {
    Planner& pl = pls[sim::draw(OPS, pls.size())];
    uint32_t act = many ? sim::draw(OPS, 3) ? 0 : 8 : sim::draw(OPS, 14);
    if (act == 9) {
      pl.disc = discs[sim::draw(OPS, 8)];
      pl.p->setDiscretization(pl.disc);
      sim::log("%s: discretization %.4f", kKinds[pl.kind], pl.disc);
      history += "d";
      sim::count("op.discretization");
    } else if (act == 10) {
      pl.cache = sim::draw(OPS, 2);
      pl.p->setUsingCache(pl.cache);
      sim::log("%s: cache %d", kKinds[pl.kind], pl.cache);
      history += pl.cache ? "C" : "c";
      sim::count("op.cache");
    } else if (act == 11 && pls.size() < 5) {
      Planner q;
      q.kind = pl.kind; q.p = copyOf(pl.kind, *pl.p); q.disc = pl.disc; q.cache = pl.cache; q.past = pl.past; q.failed = pl.failed;
      pls.push_back(std::move(q));
      sim::log("%s: copied", kKinds[pl.kind]);
      history += "y";
      sim::count("op.copy");
      continue;
    } else if (act == 12 && !jitter) {
      // a whole swath-by-swath path with the used planner
      Robot3 r = robots[sim::draw(OPS, robots.size())];
      F2CRobot robot = robotOf(r);
      const Shape& sh = shapes[sim::draw(OPS, shapes.size())];
      int n = 2 + sim::draw(OPS, 5);
      double w = sh.dist, rot = 0.1 * sim::draw(OPS, 63), len = 5 + sim::draw(OPS, 30);
      F2CSwaths sw;
      F2CPoint o(sim::draw(OPS, 200), sim::draw(OPS, 200));
      for (int i = 0; i < n; ++i) {
        auto at = [&](double x, double y) { return F2CPoint(o.getX() + x * std::cos(rot) - y * std::sin(rot), o.getY() + x * std::sin(rot) + y * std::cos(rot)); };
        double y0 = i % 2 ? len : 0, y1 = i % 2 ? 0 : len;
        sw.push_back(F2CSwath(F2CLineString(at(i * w, y0), at(i * w, y1)), w));
      }
      int fault = sim::draw(FAULT, 4);
      if (fault > 2) fault = 0;
      if (fault == 2 && pl.kind != 4) fault = 1;
      F2CPath got;
      auto go = [&] { got = f2c::pp::PathPlanning::planPath(robot, sw, *pl.p); };
      if (fault) withFault(pl, fault, go);
      go();
      auto fresh = make(pl.kind);
      fresh->setUsingCache(false);
      fresh->setDiscretization(pl.disc);
      F2CPath want = f2c::pp::PathPlanning::planPath(robot, sw, *fresh);
      Normal nm {w, M_PI / 2, 1.5 * M_PI, r, pl.disc};
      // earlier turns that may be given in place of these
      bool other = false;
      for (const auto& c : pl.past)
        if (sameKey(c, nm) && (std::fabs(c.dist - nm.dist) > 1e-9 || std::fabs(c.a0 - nm.a0) > 1e-9 || std::fabs(c.a1 - nm.a1) > 1e-9 ||
            std::fabs(c.r.curv - r.curv) > 1e-9 || std::fabs(c.r.diff - r.diff) > 1e-9)) other = true;
      std::string d = other ? "" : apart(want, got) + apart(got, want);
      if (!d.empty()) sim::violation("path", "path over %d swaths with a used %s planner: %s", n, kKinds[pl.kind], d.c_str());
      size_t k = 0;
      for (size_t i = 0; i < got.size(); ++i) {
        const auto& st = got.getState(i);
        if (st.type == f2c::types::PathSectionType::TURN) {
          if (std::fabs(st.velocity - r.vel) > 1e-3 + 1e-9) sim::violation("speed", "turn of a path at %f instead of %f", st.velocity, r.vel);
          continue;
        }
        if (k >= sw.size()) sim::violation("path", "more swaths in the path than in its input");
        if (!(std::hypot(st.point.getX() - sw[k].startPoint().getX(), st.point.getY() - sw[k].startPoint().getY()) < 1e-6))
          sim::violation("path", "swath %zu of the path starts elsewhere", k);
        ++k;
      }
      if (k != sw.size()) sim::violation("path", "%zu of %zu swaths in the path", k, sw.size());
      pl.past.push_back(nm);
      sim::log("%s: path over %d swaths, %zu states", kKinds[pl.kind], n, got.size());
      history += "p";
      sim::count("op.path");
    } else {
      const Shape& sh = shapes[many && next < shapes.size() ? next++ : sim::draw(OPS, shapes.size())];
      Robot3 r = robots[sim::draw(OPS, robots.size())];
      Normal n {sh.dist, sh.a0, sh.a1, r, pl.disc};
      bool direct = act == 8;
      // where the turn lies
      double rot = 0.0137 * sim::draw(OPS, 458);
      bool mirror = sim::draw(OPS, 2);
      F2CPoint s(0.5 * sim::draw(OPS, 400), 0.5 * sim::draw(OPS, 400));
      F2CPoint e(s.getX() + n.dist * std::cos(rot), s.getY() + n.dist * std::sin(rot));
      double m = mirror ? -1 : 1;
      double A0 = rot + m * n.a0 + 2 * M_PI * (static_cast<int>(sim::draw(OPS, 4)) - 1);
      double A1 = rot + m * n.a1 + 2 * M_PI * (static_cast<int>(sim::draw(OPS, 4)) - 1);
      F2CRobot robot = robotOf(r);
      F2CPath got;
      auto go = [&] {
        got = direct ? pl.p->createTurnIfNotCached(robot, n.dist, n.a0, n.a1) : pl.p->createTurn(robot, s, A0, e, A1);
      };
      int attempts = many ? sim::draw(FAULT, 20) == 19 : sim::draw(FAULT, 3);
      for (int i = 0; i < attempts; ++i) {
        int what = 1 + sim::draw(FAULT, 2);
        if (what == 2 && pl.kind != 4) what = 1;
        if (withFault(pl, what, go)) { sim::log("%s: attempt failed", kKinds[pl.kind]); history += "!"; }
      }
      try { go(); } catch (const std::exception& ex) {
        sim::violation("threw", "%s planner: %s: %s", kKinds[pl.kind], text(n).c_str(), ex.what());
      }
      auto expected = [&](const Normal& c) {
        F2CPath p = freshSimple(pl.kind, c);
        return direct ? p : placed(p, s, e, rot, mirror);
      };
      std::string d = pathDiff(expected(n), got, 1e-6 * (1 + n.dist));
      bool own = d.empty();
      bool cached = direct || pl.cache;
      if (!own && cached)
        for (const auto& c : pl.past)
          if (sameKey(c, n) && pathDiff(expected(c), got, 1e-6 * (1 + n.dist)).empty()) { d.clear(); sim::count("probe.shared_entry"); break; }
      if (!d.empty())
        sim::violation(direct ? "cached-turn" : "turn", "%s planner (cache %s, %zu turns before, %d failed): %s: %s", kKinds[pl.kind],
          cached ? "on" : "off", pl.past.size(), pl.failed, text(n).c_str(), d.c_str());
      if (!direct) {
        auto fresh = make(pl.kind);
        fresh->setUsingCache(false);
        fresh->setDiscretization(pl.disc);
        F2CPath f = fresh->createTurn(robot, s, A0, e, A1);
        d = pathDiff(f, got, 1e-6 * (1 + n.dist));
        if (own && !d.empty()) sim::violation("turn-off", "%s planner: %s: cache off gives another turn: %s", kKinds[pl.kind], text(n).c_str(), d.c_str());
        if (got.size() < 2) sim::violation("no-turn", "%s planner: no turn for %s", kKinds[pl.kind], text(n).c_str());
        const auto &b = got.getState(0), &l = got.getState(got.size() - 1);
        if (b.point.getX() != s.getX() || b.point.getY() != s.getY()) sim::violation("start", "turn starts %g from its start", b.point.distance(s));
        if (l.point.getX() != e.getX() || l.point.getY() != e.getY()) sim::violation("end", "turn ends %g from its end", l.point.distance(e));
        if (adiff(b.angle, A0) > 1.1e-3 || adiff(l.angle, A1) > 1.1e-3)
          sim::violation("heading", "turn goes from heading %f to %f instead of %f to %f (%s)", b.angle, l.angle, wrap(A0), wrap(A1), text(n).c_str());
      }
      for (size_t i = 0; i < got.size(); ++i) {
        if (std::fabs(got.getState(i).velocity - r.vel) > 1e-3 + 1e-9)
          sim::violation("speed", "turn at speed %f instead of %f", got.getState(i).velocity, r.vel);
        if (got.getState(i).type != f2c::types::PathSectionType::TURN) sim::violation("type", "turn with a state that is none");
      }
      for (const auto& c : pl.past) if (sameKey(c, n)) { sim::nontrivial(); sim::count("probe.repeated"); break; }
      pl.past.push_back(n);
      sim::log("%s: %s%s -> %zu states", kKinds[pl.kind], direct ? "direct " : "", text(n).c_str(), got.size());
      history += direct ? "n" : "t";
      sim::count("op.turn");
      // what the caller does to its turn is its own business
      if (got.size()) { got[0].point = F2CPoint(1e9, 1e9); got[got.size() - 1].velocity = -7; got[0].angle = 77; }
    }
    if (pl.p->getDiscretization() != pl.disc || pl.p->getUsingCache() != pl.cache)
      sim::violation("settings", "%s planner: discretization %f, cache %d instead of %f, %d", kKinds[pl.kind],
        pl.p->getDiscretization(), pl.p->getUsingCache(), pl.disc, pl.cache);
  }
  for (auto& p : pls) history += std::to_string(p.kind);
  sim::sig(history);
}
