// variant=tsan uses=ops,ser,jobs,solver
// Operations of several threads on the same inputs, which lie in read-only
// memory, and changes to clones meanwhile. Oracle: each operation alone in a
// fresh process; the inputs' complete text; the memory protection.
#include <memory>
#include "jobs.h"
#include "solver.h"
#include "threads.h"
const char* const kProperty = "C03";

namespace {
bool want(const Op&) { return true; }
struct Step { const Op* op; sim::Params p; std::string ref, got; };

// A clone of every part of the world; changes to it, in place, through all the
// ways a clone can be changed.
struct Clones {
  F2CCell cell; F2CCells cells; F2CField field, geo; F2CSwaths swaths; F2CSwathsByCells by; F2CRoute route; F2CPath path;
  F2CLinearRing ring; F2CLineString line; F2CMultiLineString lines; F2CMultiPoint mp; F2CStrip strip; F2CRobot robot; F2CGraph2D graph; F2CPoint point; F2CSwath swath;
  Nothing none;
};
Clones cloneAll(const World& w) {
  Clones c;
  c.cell = w.cell.clone(); c.cells = w.cells.clone(); c.field = w.field.clone(); c.geo = w.geo_field.clone(); c.swaths = w.swaths.clone();
  c.by = w.by_cells.clone(); c.route = w.route.clone(); c.path = w.path; c.ring = w.ring.clone(); c.line = w.line.clone(); c.lines = w.lines.clone();
  c.mp = w.mp.clone(); c.strip = w.strips[0].clone(); c.robot = w.robot; c.graph = w.graph; c.point = w.nodes[0].clone(); c.swath = w.swaths[0].clone();
  const Nothing& n = w.none;
  c.none = {n.cell.clone(), n.cells.clone(), n.field.clone(), n.swaths.clone(), n.by.clone(), n.route.clone(), n.path, n.ring.clone(), n.line.clone(), n.lines.clone(), n.mp.clone(), n.strip.clone(), n.swath.clone()};
  return c;
}
std::string text(const Clones& c) {
  using ser::s;
  return s(c.cell) + s(c.cells) + s(c.field) + s(c.geo) + s(c.swaths) + s(c.by) + s(c.route) + s(c.path) + s(c.ring) + s(c.line) + s(c.lines) + s(c.mp) + s(c.strip) + s(c.robot) + s(c.point) + s(c.swath) + nothingText(c.none) +
    std::to_string(c.graph.numNodes()) + " " + std::to_string(c.graph.numEdges());
}
constexpr uint32_t kChanges = 28;
void change(Clones& c, uint32_t k, double d) {
  F2CPoint o(d, 2 * d);
  switch (k) {
    case 0: c.cell *= 1 + d; break;
    case 1: c.cells *= 1 + d; c.cells.addGeometry(c.cell); break;
    case 2: c.field.getField() *= 1 + d; c.field.setRefPoint(o); break;
    case 3: for (auto& s : c.swaths) { s.reverse(); s.moveTo(o); } break;
    case 4: c.swaths.moveTo(o); c.swaths.reverse(); break;
    case 5: for (auto& v : c.by) v.moveTo(o); c.by.reverse(); break;
    case 6: for (size_t i = 0; i < c.route.sizeVectorSwaths(); ++i) c.route.getSwaths(i).moveTo(o); break;
    case 7: c.path.rotateFromPoint(o, d); c.path.moveTo(o); c.path.mirrorX(); break;
    case 8: for (auto& s : c.path) s.point *= 1 + d; break;
    case 9: c.ring.reversePoints(); c.ring *= 1 + d; c.ring.setGeometry(0, o); break;
    case 10: c.line.reversePoints(); c.line *= 1 + d; c.line.addPoint(o); break;
    case 11: c.lines *= 1 + d; c.lines.addGeometry(c.line); break;
    case 12: c.mp *= 1 + d; c.mp.addPoint(o); break;
    case 13: c.strip.getCell() *= 1 + d; break;
    case 14: c.robot.setCovWidth(3 + d); c.robot.setName("other"); break;
    case 15: c.graph.removeEdge(size_t(0), size_t(1)); c.graph.addEdge(F2CPoint(-1, d), F2CPoint(-2, d)); break;
    case 16: c.point *= 1 + d; c.point.setX(d); break;
    case 17: c.swath.reverse(); c.swath.moveTo(o); c.swath.setWidth(d + 1); break;
    case 18: for (size_t i = 0; i < c.route.sizeConnections(); ++i) c.route.getConnection(i) *= 1 + d; break;
    case 19: for (auto&& x : c.cells) for (auto&& r : x) r *= 1 + d; break;
    case 20: c.swath.getPath() *= 1 + d; for (auto& s : c.swaths) s.getPath() *= 1 + d; break;
    case 21: c.none.field.getField().addGeometry(c.cell); c.none.field.setRefPoint(o); break;
    case 22: c.none.cell.addRing(c.ring); c.none.cells.addGeometry(c.cell); break;
    case 23: c.none.swaths.emplace_back(c.swath); c.none.by.emplace_back(c.swaths); break;
    case 24: c.none.route.addConnection(o); c.none.route.addSwath(c.swath); c.none.path.addState(o, d, 1.0); break;
    case 25: c.none.ring.addPoint(o); c.none.line.addPoint(o); c.none.mp.addPoint(o); c.none.lines.addGeometry(c.line); break;
    case 26: c.none.strip.getCell().addRing(c.ring); c.none.swath.getPath().addPoint(o); c.none.swath.setWidth(d); break;
    default: for (auto&& p : c.line) p *= 1 + d; c.geo.getField() *= 0.5; break;
  }
}
}  // namespace

void propertyRun() {
  uint32_t heap = sim::draw(sim::SCHED, 4);
  sim::recycleHeap(heap == 3 ? 1 : heap, 12345 + sim::draw(sim::SCHED, 1000));
  sim::Params wp = sim::makeParams(160);
  uint32_t threads = 1 + sim::draw(sim::OPS, 4);
  solver::Plan plan;
  plan.any_arc = true;
  solver::set(plan);
  std::vector<std::vector<Step>> plans(threads);
  const Op* base = drawOp(want, 6);
  sim::Params base_p = sim::makeParams(24);
  for (auto& v : plans) {
    uint32_t n = 1 + sim::draw(sim::OPS, threads == 1 ? 6 : 3);
    for (uint32_t i = 0; i < n; ++i) {
      Step s;
      switch (sim::draw(sim::OPS, 4)) {
        case 0: s.op = base; s.p = base_p; break;
        case 1: s.op = base; s.p = sim::siblingOf(base_p); break;
        default: s.op = drawOp(want, 6); s.p = sim::makeParams(24);
      }
      v.push_back(s);
    }
  }
  // who changes clones meanwhile, and how
  uint32_t changers = sim::draw(sim::OPS, 3);
  std::vector<std::vector<std::pair<uint32_t, double>>> changes(changers);
  std::vector<bool> early(changers);
  for (uint32_t c = 0; c < changers; ++c) {
    early[c] = sim::draw(sim::OPS, 2);
    uint32_t n = 1 + sim::draw(sim::OPS, 6);
    for (uint32_t i = 0; i < n; ++i) changes[c].emplace_back(sim::draw(sim::OPS, kChanges), 0.25 * (1 + sim::draw(sim::OPS, 8)));
  }
  for (auto& v : plans)
    for (auto& s : v) {
      try {
        s.ref = sim::isolated([&] {
          sim::Params p = wp;
          World w = makeWorld(p);
          Tools t;
          return runOp(*s.op, w, s.p, t);
        });
      } catch (const std::runtime_error& e) {
        sim::violation("crash-alone", "%s alone in a fresh process: %s", s.op->name, e.what());
      }
    }
  std::vector<std::string> changed_ref(changers);
  for (uint32_t c = 0; c < changers; ++c)
    changed_ref[c] = sim::isolated([&] {
      sim::Params p = wp;
      World w = makeWorld(p);
      Clones k = cloneAll(w);
      for (auto& x : changes[c]) change(k, x.first, x.second);
      return text(k);
    });
  sim::arenaOn();
  sim::Params p = wp;
  World* w = new World(makeWorld(p));
  sim::arenaOff();
  std::string before = worldText(*w);
  // clones made beforehand share nothing with the protected original either
  std::vector<Clones> clones(changers);
  for (uint32_t c = 0; c < changers; ++c) if (early[c]) clones[c] = cloneAll(*w);
  sim::arenaProtect("a shared input");
  std::vector<std::string> changed(changers);
  std::vector<std::function<void()>> jobs;
  for (uint32_t u = 0; u < threads; ++u)
    jobs.push_back([&, u] {
      auto t = std::make_unique<Tools>();
      for (auto& s : plans[u]) {
        std::string r = runOp(*s.op, *w, s.p, *t);
        sim::Quiet quiet;
        s.got = r;
      }
    });
  for (uint32_t c = 0; c < changers; ++c)
    jobs.push_back([&, c] {
      if (!early[c]) clones[c] = cloneAll(*w);
      for (auto& x : changes[c]) change(clones[c], x.first, x.second);
      std::string r = text(clones[c]);
      sim::Quiet quiet;
      changed[c] = r;
    });
  if (jobs.size() == 1) jobs[0](); else sim::runThreads(std::move(jobs));
  auto st = sim::threadStats();
  std::string after = worldText(*w);
  sim::arenaRelease();
  if (after != before) sim::violation("input-changed", "the shared inputs changed: %s", sim::diff(before, after).c_str());
  for (uint32_t u = 0; u < threads; ++u)
    for (auto& s : plans[u]) {
      if (s.got != s.ref) sim::violation("other-result", "thread %u: %s on shared inputs gave another result than alone: %s", u, s.op->name, sim::diff(s.ref, s.got).c_str());
      sim::log("thread %u: %s %016llx", u, s.op->name, (unsigned long long)sim::hashStr(s.got));
      sim::count((std::string("op.") + s.op->name).c_str());
      sim::sig(s.op->name);
    }
  for (uint32_t c = 0; c < changers; ++c) {
    if (changed[c] != changed_ref[c]) sim::violation("other-clone", "a clone changed on its own came out otherwise than alone: %s", sim::diff(changed_ref[c], changed[c]).c_str());
    // clones whose making was finished are independent of one another
    std::string now = text(clones[c]);
    if (now != changed[c]) sim::violation("other-clone", "a clone changed after its own changes: %s", sim::diff(changed[c], now).c_str());
  }
  sim::count("fault.preemption", st.switches);
  sim::count("probe.threads", st.threads);
  sim::count("probe.accesses_checked", st.accesses);
  sim::count("probe.clones_changed", changers);
  sim::count("probe.protected_bytes", sim::arenaBytes());
  if (st.switches > 2 || changers) sim::nontrivial();
  sim::sig(st.interleaving);
  sim::log("interleaving %016llx", (unsigned long long)st.interleaving);
}
