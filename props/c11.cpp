// variant=asan uses=ops,ser,jobs,solver
// Route planning over a simulated anytime solver: it returns any valid tour, or
// none before its time limit, or (where the graph has none) one along arcs that
// do not exist. Oracle: the harness's own account of the swaths and of the lines
// a route may follow; a fresh planner given the same solver outcome.
#include <algorithm>
#include <cmath>
#include <memory>
#include "fault.h"
#include "jobs.h"
#include "solver.h"
const char* const kProperty = "C11";
using sim::OPS;
using sim::FAULT;

namespace {
struct P2 { double x, y; };
P2 p2(const F2CPoint& p) { return {p.getX(), p.getY()}; }
double dist(P2 a, P2 b) { return std::hypot(a.x - b.x, a.y - b.y); }
struct Seg { P2 a, b; };
P2 nearest(P2 p, const Seg& s) {
  double dx = s.b.x - s.a.x, dy = s.b.y - s.a.y, l = dx * dx + dy * dy;
  double t = l > 0 ? std::min(1.0, std::max(0.0, ((p.x - s.a.x) * dx + (p.y - s.a.y) * dy) / l)) : 0;
  return {s.a.x + t * dx, s.a.y + t * dy};
}
struct Input {
  F2CCells cells;            // rings to drive along
  F2CSwathsByCells swaths;
  std::vector<Seg> lines;    // rings, and from every end of a swath to them
  std::vector<Seg> rings;
};
std::string at(P2 p) { char b[80]; snprintf(b, sizeof b, "(%.6f %.6f)", p.x, p.y); return b; }
// Lines from p to the border, where it is nearest (there may be ties).
void addLinks(const std::vector<Seg>& rings, P2 p, std::vector<Seg>& lines) {
  double d = HUGE_VAL;
  for (auto& s : rings) d = std::min(d, dist(p, nearest(p, s)));
  for (auto& s : rings) { P2 q = nearest(p, s); if (dist(p, q) < d + 1e-6) lines.push_back({p, q}); }
}
void addRing(F2CCell& c, double cx, double cy, double r, int n, double off, bool dent) {
  F2CLinearRing ring;
  F2CPoint first;
  for (int i = 0; i < n; ++i) {
    double a = off + 2 * M_PI * i / n, rr = r * (dent && i % 2 ? 0.55 : 1);
    F2CPoint q(std::round((cx + rr * std::cos(a)) * 8) / 8, std::round((cy + rr * std::sin(a)) * 8) / 8);
    if (!i) first = q;
    ring.addPoint(q);
  }
  ring.addPoint(first);
  c.addRing(ring);
}
F2CSwath swathOf(P2 a, P2 b, double w, int id, bool bend) {
  F2CLineString l;
  l.addPoint(a.x, a.y);
  if (bend) l.addPoint(0.5 * (a.x + b.x) + 0.01, 0.5 * (a.y + b.y) - 0.013);
  l.addPoint(b.x, b.y);
  return F2CSwath(l, w, id);
}
Input makeInput() {
  Input in;
  int nc = 1 + sim::draw(OPS, 3);
  int total = 0;
  bool adjoining = sim::draw(OPS, 2);
  // mostly one ring around all of it
  bool around = sim::draw(OPS, 4) != 3;
  size_t most = sim::draw(OPS, 4) == 3 ? 14 : 8;
  if (around) nc = 1 + nc / 3;
  int id = 0;
  for (int c = 0; c < nc; ++c) {
    double size = 8 + sim::draw(OPS, 20), cx = (adjoining ? 16.0 : 60.0) * c, cy = 2.0 * sim::draw(OPS, 6);
    int n = 1 + sim::draw(OPS, c ? 4 : 7);
    double w = 0.75 + 0.25 * sim::draw(OPS, 10);
    F2CSwaths sw;
    switch (sim::draw(OPS, 3)) {
      case 0: {  // lines across a rectangle, ends on its border or short of it
        double h = w * (n + 1), gap = 0.25 * sim::draw(OPS, 6);
        // the first swath starts at the origin of the coordinates
        if (c == 0 && sim::draw(OPS, 4) == 3) { cx = -gap; cy = -w; }
        F2CCell cell;
        cell.addRing(F2CLinearRing({F2CPoint(cx, cy), F2CPoint(cx + size, cy), F2CPoint(cx + size, cy + h), F2CPoint(cx, cy + h), F2CPoint(cx, cy)}));
        in.cells.addGeometry(cell);
        for (int i = 0; i < n; ++i) {
          P2 a {cx + gap, cy + (i + 1) * w}, b {cx + size - gap - 0.013 * i, cy + (i + 1) * w};
          if (sim::draw(OPS, 3) == 2) std::swap(a, b);
          sw.push_back(swathOf(a, b, w, id++, sim::draw(OPS, 6) == 5));
        }
        break;
      }
      case 1: {  // any polygon, perhaps with a hole, swaths inside
        F2CCell cell;
        addRing(cell, cx, cy, size, 3 + sim::draw(OPS, 7), 0.1 * sim::draw(OPS, 20), sim::draw(OPS, 3) == 2);
        if (sim::draw(OPS, 4) == 3) addRing(cell, cx, cy, size * 0.2, 3 + sim::draw(OPS, 3), 0.3, false);
        in.cells.addGeometry(cell);
        double rot = 0.11 * sim::draw(OPS, 29);
        for (int i = 0; i < n; ++i) {
          double y = (i - 0.5 * n) * w * 0.6, x0 = -0.3 * size - 0.01 * sim::draw(OPS, 200), x1 = 0.2 * size + 0.01 * sim::draw(OPS, 300);
          P2 a {cx + x0 * std::cos(rot) - y * std::sin(rot), cy + x0 * std::sin(rot) + y * std::cos(rot)};
          P2 b {cx + x1 * std::cos(rot) - y * std::sin(rot), cy + x1 * std::sin(rot) + y * std::cos(rot)};
          if (i % 2 && sim::draw(OPS, 2)) std::swap(a, b);
          sw.push_back(swathOf(a, b, w, id++, sim::draw(OPS, 6) == 5));
        }
        break;
      }
      default: {  // the library's own swaths
        F2CCell cell;
        addRing(cell, cx, cy, size, 4 + sim::draw(OPS, 4), 0.1 * sim::draw(OPS, 20), false);
        in.cells.addGeometry(cell);
        f2c::sg::BruteForce bf;
        for (auto&& s : bf.generateSwaths(0.1 * sim::draw(OPS, 63), std::max(w, size / 4.0), cell)) sw.push_back(s);
      }
    }
    if (total + sw.size() > most) {
      F2CSwaths few;
      for (size_t i = 0; total + i < most; ++i) few.push_back(sw[i]);
      sw = few;
    }
    total += sw.size();
    in.swaths.push_back(sw);
  }
  if (around) {
    F2CCell cell;
    int n = 4 + sim::draw(OPS, 6);
    addRing(cell, adjoining ? 8 : 30, 5, 70 + sim::draw(OPS, 20), n, 0.1 * sim::draw(OPS, 15), false);
    in.cells = F2CCells(cell);
  }
  if (total && sim::draw(OPS, 10) == 9) {
    // a swath that meets another one, or lies on it
    size_t c = 0;
    while (in.swaths[c].size() == 0) ++c;
    const F2CSwath& s = in.swaths[c][0];
    P2 a = p2(s.startPoint()), b = p2(s.endPoint());
    switch (sim::draw(OPS, 4)) {
      case 0: in.swaths[c].push_back(swathOf(b, {b.x + 1.25, b.y + 2.5}, 1, id++, false)); break;
      case 1: in.swaths[c].push_back(swathOf(a, b, 1, id++, false)); break;
      case 2: in.swaths[c].push_back(swathOf(b, a, 1, id++, false)); break;
      default: in.swaths[c].push_back(swathOf({0.5 * (a.x + b.x) + 1, 0.5 * (a.y + b.y) + 1}, {0.5 * (a.x + b.x) - 1, 0.5 * (a.y + b.y) - 1}, 1, id++, false));
    }
  }
  for (size_t c = 0; c < in.cells.size(); ++c) {
    F2CCell cell = in.cells.getGeometry(c);
    for (size_t r = 0; r < cell.size(); ++r) {
      F2CLinearRing ring = cell.getGeometry(r);
      for (size_t i = 0; i + 1 < ring.size(); ++i) in.rings.push_back({p2(ring.getGeometry(i)), p2(ring.getGeometry(i + 1))});
    }
  }
  in.lines = in.rings;
  for (size_t i = 0; i < in.swaths.sizeTotal(); ++i) {
    const F2CSwath& s = in.swaths.getSwath(i);
    for (P2 e : {p2(s.startPoint()), p2(s.endPoint())}) addLinks(in.rings, e, in.lines);
  }
  return in;
}
// Ends and middles of swaths that the planner cannot tell apart.
bool tangled(const Input& in, const P2* start) {
  std::vector<P2> ps;
  for (size_t i = 0; i < in.swaths.sizeTotal(); ++i) {
    const F2CSwath& s = in.swaths.getSwath(i);
    P2 a = p2(s.startPoint()), b = p2(s.endPoint()), m {0.5 * (a.x + b.x), 0.5 * (a.y + b.y)};
    if (start && dist(m, *start) < 1e-5) return true;
    for (P2 q : {a, b, m}) ps.push_back(q);
  }
  for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < i; ++j) if (dist(ps[i], ps[j]) < 1e-5) return true;
  return false;
}
// "" or what is wrong with the route
std::string wrong(const Input& in, const F2CRoute& r, const P2* start, double tol, bool redirect, bool continuous) {
  size_t n = in.swaths.sizeTotal();
  std::vector<int> times(n, 0);
  std::vector<Seg> lines = in.lines;
  if (start) addLinks(in.rings, *start, lines);
  double eps = 6 * tol + 1e-6;
  auto along = [&](P2 a, P2 b) {
    for (int k = 0; k <= 8; ++k) {
      P2 q {a.x + (b.x - a.x) * k / 8, a.y + (b.y - a.y) * k / 8};
      bool near = false;
      for (auto& s : lines) if (dist(q, nearest(q, s)) <= eps) { near = true; break; }
      if (!near) return false;
    }
    return true;
  };
  auto same = [&](P2 a, P2 b) { return dist(a, b) < 1e-6; };
  bool have = false;
  P2 pos {0, 0};
  std::string err;
  auto connect = [&](const F2CMultiPoint& c, const char* what) {
    for (size_t i = 0; i < c.size(); ++i) {
      P2 q = p2(c.getGeometry(i));
      if (continuous && i == 0 && have && !same(pos, q)) err = std::string(what) + " starts at " + at(q) + " instead of " + at(pos);
      else if (continuous && have && !same(pos, q) && !along(pos, q)) err = std::string(what) + " goes from " + at(pos) + " to " + at(q) + " outside the graph";
      pos = q; have = true;
    }
  };
  if (r.sizeConnections() != r.sizeVectorSwaths() + (start ? 1 : 0))
    return std::to_string(r.sizeConnections()) + " connections for " + std::to_string(r.sizeVectorSwaths()) + " groups of swaths";
  for (size_t g = 0; g < r.sizeVectorSwaths(); ++g) {
    const F2CMultiPoint& c = r.getConnection(g);
    if (g == 0) {
      if (start && c.size() && !same(p2(c.getGeometry(0)), *start)) return "does not start at the start point";
      if (start) { pos = *start; have = true; }  // a connection to where one is has no points
      if (!start && c.size() != 0) return "starts with a connection though there is no start point";
    }
    connect(c, "connection");
    if (!err.empty()) return err;
    const F2CSwaths& sw = r.getSwaths(g);
    for (size_t k = 0; k < sw.size(); ++k) {
      const F2CLineString l = sw[k].getPath();
      bool known = false;
      for (size_t i = 0; i < n && !known; ++i) {
        const F2CLineString o = in.swaths.getSwath(i).getPath();
        if (o.size() != l.size() || sw[k].getWidth() != in.swaths.getSwath(i).getWidth()) continue;
        bool fwd = true, bwd = redirect;
        for (size_t j = 0; j < l.size(); ++j) {
          if (!same(p2(l.getGeometry(j)), p2(o.getGeometry(j)))) fwd = false;
          if (!same(p2(l.getGeometry(j)), p2(o.getGeometry(l.size() - 1 - j)))) bwd = false;
        }
        if ((fwd || bwd) && times[i] == 0) { ++times[i]; known = true; }
      }
      if (!known) return "swath " + at(p2(sw[k].startPoint())) + "-" + at(p2(sw[k].endPoint())) + " is not one still to be covered" + (redirect ? "" : " in its direction");
      if (continuous && have && !same(pos, p2(sw[k].startPoint())))
        return "swath starts at " + at(p2(sw[k].startPoint())) + " but the route is at " + at(pos);
      pos = p2(sw[k].endPoint()); have = true;
    }
    if (sw.size() == 0) return "a group without swaths";
  }
  for (size_t i = 0; i < n; ++i) if (!times[i]) return "swath " + at(p2(in.swaths.getSwath(i).startPoint())) + "-" + at(p2(in.swaths.getSwath(i).endPoint())) + " is missing";
  if (start && n) {
    connect(r.getLastConnection(), "last connection");
    if (!err.empty()) return err;
    if (continuous && !same(pos, *start)) return "ends at " + at(pos) + " instead of the start point " + at(*start);
  }
  return "";
}
}  // namespace

void propertyInit() {}

static void planCov() {
  // the whole pipeline with the solver's outcome decided here
  F2CCell cell;
  double size = 14 + sim::draw(OPS, 20);
  addRing(cell, 0, 0, size, 4 + sim::draw(OPS, 4), 0.1 * sim::draw(OPS, 20), false);
  F2CRobot robot(1.0 + 0.25 * sim::draw(OPS, 4), 3.0 + 0.5 * sim::draw(OPS, 8));
  f2c::Options opt;
  opt.hg_alg = sim::draw(OPS, 3) ? f2c::HGAlg::CONST : f2c::HGAlg::NONE;
  opt.hg_swaths = 1 + sim::draw(OPS, 3);
  bool best = sim::draw(OPS, 6) == 5;
  opt.sg_alg = best ? f2c::SGAlg::BRUTE_FORCE : f2c::SGAlg::GIVEN_ANGLE;
  opt.sg_angle = 0.1 * sim::draw(OPS, 63);
  F2CCells cells(cell);
  F2CCells mainland = cells, rings = cells;
  f2c::hg::ConstHL hl;
  if (opt.hg_alg == f2c::HGAlg::CONST) {
    mainland = hl.generateHeadlandArea(cells, robot.getWidth(), opt.hg_swaths);
    rings = hl.generateHeadlandSwaths(cells, robot.getWidth(), opt.hg_swaths)[opt.hg_swaths / 2];
  }
  Input in;
  in.cells = rings;
  f2c::sg::BruteForce bf;
  opt.sg_obj = f2c::SGObjFunc::N_SWATH;
  f2c::obj::NSwath obj;
  in.swaths = best ? bf.generateBestSwaths(obj, robot.getCovWidth(), mainland) : bf.generateSwaths(opt.sg_angle, robot.getCovWidth(), mainland);
  for (size_t c = 0; c < in.cells.size(); ++c) {
    F2CCell k = in.cells.getGeometry(c);
    for (size_t r = 0; r < k.size(); ++r) {
      F2CLinearRing ring = k.getGeometry(r);
      for (size_t i = 0; i + 1 < ring.size(); ++i) in.rings.push_back({p2(ring.getGeometry(i)), p2(ring.getGeometry(i + 1))});
    }
  }
  in.lines = in.rings;
  for (size_t i = 0; i < in.swaths.sizeTotal(); ++i)
    for (P2 e : {p2(in.swaths.getSwath(i).startPoint()), p2(in.swaths.getSwath(i).endPoint())}) addLinks(in.rings, e, in.lines);
  solver::Plan plan;
  plan.order_seed = sim::draw(FAULT, 1 << 20);
  plan.fail = sim::draw(FAULT, 6) == 5;
  solver::set(plan);
  auto before = solver::stats();
  sim::count("op.planCov");
  bool threw = false;
  F2CRoute r;
  try { r = f2c::planCovRoute(robot, cell, opt); } catch (const std::exception&) { threw = true; }
  auto after = solver::stats();
  bool none = after.failed != before.failed || after.no_tour != before.no_tour;
  if (plan.fail) sim::count("fault.solver_no_solution");
  if (threw != none) sim::violation("outcome", "planCovRoute %s though the solver %s", threw ? "threw" : "returned", none ? "found no tour" : "found one");
  if (!threw && !tangled(in, nullptr)) {
    std::string w = in.swaths.sizeTotal() ? wrong(in, r, nullptr, 1e-4, true, true) : "";
    if (!w.empty()) sim::violation("route", "planCovRoute, %zu swaths: %s", in.swaths.sizeTotal(), w.c_str());
  }
  sim::nontrivial();
  sim::sig("cov" + std::to_string(in.swaths.sizeTotal()) + (plan.fail ? "f" : "") + std::to_string(plan.order_seed % 64));
  sim::simTime(after.sim_seconds - before.sim_seconds);
  sim::log("planCovRoute: %zu swaths, %s", in.swaths.sizeTotal(), threw ? "none" : "route");
}

void propertyRun() {
  if (sim::draw(OPS, 12) == 11) return planCov();
  f2c::rp::RoutePlannerBase planner;
  bool has_start = false;
  P2 start {0, 0};
  std::string history;
  auto first = solver::stats();
  int rounds = 1 + sim::draw(OPS, 3);
  Input in;
  for (int round = 0; round < rounds; ++round) {
    if (round == 0 || sim::draw(OPS, 2)) in = makeInput();
    size_t n = in.swaths.sizeTotal();
    if (sim::draw(OPS, 2)) {
      switch (sim::draw(OPS, 5)) {
        case 0: start = {-5.0 + sim::draw(OPS, 40), -7.0 + sim::draw(OPS, 30)}; break;
        case 1: start = in.rings[sim::draw(OPS, in.rings.size())].a; break;
        case 2: { auto& g = in.rings[sim::draw(OPS, in.rings.size())]; start = {0.5 * (g.a.x + g.b.x), 0.5 * (g.a.y + g.b.y)}; break; }
        default:
          if (!n) break;
          { const F2CSwath& s = in.swaths.getSwath(sim::draw(OPS, n)); start = p2(sim::draw(OPS, 2) ? s.startPoint() : s.endPoint()); }
          sim::count("probe.start_at_swath_end");
      }
      has_start = true;
      planner.setStartAndEndPoint(F2CPoint(start.x, start.y));
    }
    const double tols[] = {1e-4, 1e-3, 1e-2, 1e-6};
    double tol = tols[sim::draw(OPS, 4)];
    bool redirect = sim::draw(OPS, 3) != 2, optimum = sim::draw(OPS, 3) == 2;
    long limit = 1 + sim::draw(OPS, 5);
    bool twisted = tangled(in, has_start ? &start : nullptr);
    solver::Plan plan;
    plan.order_seed = sim::draw(FAULT, 3) ? 1 + sim::draw(FAULT, 1 << 24) : 0;
    switch (sim::draw(FAULT, 7)) {
      case 6: plan.fail = true; break;
      case 5: plan.guided_only = true; break;
      case 4: plan.any_arc = true; break;
    }
    solver::set(plan);
    std::string before = ser::s(in.cells) + ser::s(in.swaths);
    auto plan1 = [&](f2c::rp::RoutePlannerBase& p) { return p.genRoute(in.cells, in.swaths, false, tol, redirect, limit, optimum); };
    if (sim::draw(FAULT, 4) == 3) {
      uint64_t k = 1 + sim::draw(FAULT, sim::draw(FAULT, 2) ? 200 : 20000);
      sim::allocArm(k, 1 + sim::draw(FAULT, 2));
      bool threw = false;
      try { plan1(planner); } catch (...) { threw = true; }
      uint64_t fired = sim::allocDisarm();
      if (fired) { sim::count("fault.alloc", fired); sim::nontrivial(); history += "a"; }
      if (fired && !threw) sim::violation("failure-hidden", "genRoute returned although an allocation failed inside");
    }
    auto s0 = solver::stats();
    F2CRoute r;
    bool threw = false;
    std::string what;
    try { r = plan1(planner); } catch (const std::exception& e) { threw = true; what = e.what(); }
    auto s1 = solver::stats();
    bool none = s1.failed != s0.failed || (s1.no_tour != s0.no_tour && s1.any_arc == s0.any_arc);
    bool bad_tour = s1.any_arc != s0.any_arc;
    if (s1.failed != s0.failed) { sim::count(plan.fail ? "fault.solver_time_limit" : "fault.solver_needs_guided"); sim::nontrivial(); }
    if (s1.no_tour != s0.no_tour) sim::count("probe.no_tour");
    if (bad_tour) { sim::count("fault.solver_invalid_arcs"); sim::nontrivial(); }
    if (plan.order_seed && !none) { sim::count("fault.solver_other_tour"); sim::nontrivial(); }
    if (twisted) sim::count("probe.shared_points");
    if (!has_start) sim::count("probe.no_start");
    sim::count("op.genRoute");
    if (sim::tracing()) {
      sim::note("cells %s", ser::s(in.cells).c_str());
      for (size_t i = 0; i < n; ++i) sim::note("swath %s", ser::s(in.swaths.getSwath(i)).c_str());
      if (!threw) sim::note("route %s", ser::s(r).c_str());
    }
    auto desc = [&] {
      char b[300];
      snprintf(b, sizeof b, "%zu swaths in %zu cells, tol %g, redirect %d, start %s, round %d", n, in.cells.size(), tol, redirect, has_start ? at(start).c_str() : "none", round);
      return std::string(b);
    };
    if (s1.allowed - s0.allowed > limit) sim::violation("time-limit", "%s: the solver may take %g s instead of %ld s", desc().c_str(), s1.allowed - s0.allowed, limit);
    if (none && !threw) sim::violation("no-solution", "%s: the solver found nothing and a route was returned", desc().c_str());
    if (threw && !none && !bad_tour && !twisted) sim::violation("threw", "%s: the solver found a tour, but: %s", desc().c_str(), what.c_str());
    if (!threw && n) {
      std::string w = wrong(in, r, has_start ? &start : nullptr, tol, redirect || bad_tour || twisted, !bad_tour && !twisted);
      if (!w.empty()) sim::violation("route", "%s: %s", desc().c_str(), w.c_str());
    }
    if (before != ser::s(in.cells) + ser::s(in.swaths)) sim::violation("inputs", "genRoute changed its inputs");
    // the same outcome of the solver with a planner that has no past
    if (round || sim::draw(OPS, 4) == 3) {
      f2c::rp::RoutePlannerBase fresh;
      if (has_start) fresh.setStartAndEndPoint(F2CPoint(start.x, start.y));
      std::string a = threw ? "threw" : ser::s(r), b;
      try { b = ser::s(plan1(fresh)); } catch (const std::exception&) { b = "threw"; }
      if (a != b) sim::violation("reuse", "%s: the used planner and a fresh one differ: %s", desc().c_str(), sim::diff(b, a).c_str());
      sim::count("op.fresh");
    }
    sim::log("%s%s%s -> %s", desc().c_str(), plan.fail ? " fail" : "", plan.any_arc ? " any" : "", threw ? "none" : sim::brief(ser::s(r), 300).c_str());
    history += std::to_string(n) + (has_start ? "s" : "-") + (redirect ? "r" : "d") + (none ? "N" : bad_tour ? "B" : "") + std::to_string(plan.order_seed % 16);
  }
  sim::simTime(solver::stats().sim_seconds - first.sim_seconds);
  sim::sig(history);
}
