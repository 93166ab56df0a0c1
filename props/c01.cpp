// variant=tsan uses=ser,userobj,solver
// Best-angle searches on the simulated parallel backend. Oracle: a scan of the
// candidate angles one at a time, in another order, by fresh objects in a fresh
// process.
#include <cmath>
#include <memory>
#include <sstream>
#include "ser.h"
#include "sim.h"
#include "threads.h"
#include "userobj.h"
const char* const kProperty = "C01";
using sim::Params;

namespace {
F2CLinearRing ringOf(Params& p, double cx, double cy, double r, int n, bool star) {
  F2CLinearRing ring;
  F2CPoint first;
  double off = 0.05 * p.draw(120);
  for (int i = 0; i < n; ++i) {
    double a = off + 2 * M_PI * i / n, rr = star ? r * (0.5 + 0.05 * p.draw(11)) : r;
    F2CPoint q(cx + rr * std::cos(a), cy + rr * std::sin(a));
    if (!i) first = q;
    ring.addPoint(q);
  }
  ring.addPoint(first);
  return ring;
}
F2CCell cellOf(Params& p, double x) {
  F2CCell c;
  double r = 12.0 + p.draw(20);
  switch (p.draw(5)) {
    case 0: {
      double h = 15.0 + p.draw(30);
      c.addRing(F2CLinearRing({F2CPoint(x, 0), F2CPoint(x + r, 0), F2CPoint(x + r, h), F2CPoint(x, h), F2CPoint(x, 0)}));
      break;
    }
    case 1:  // many angles tie
      c.addRing(ringOf(p, x, 0, r, 24, false));
      break;
    case 2: c.addRing(ringOf(p, x, 0, r, 3 + p.draw(5), false)); break;
    case 3: c.addRing(ringOf(p, x, 0, r + 8, 5 + p.draw(6), true)); break;
    default:
      c.addRing(ringOf(p, x, 0, r + 5, 4 + p.draw(4), false));
      c.addRing(ringOf(p, x, 0, 3, 4, false));
  }
  return c;
}
// One search: everything it depends on.
struct Search {
  Params p;
  F2CCells cells;
  double width {2}, step {0.1};
  bool overlap {false}, whole {false};
  uint32_t objective {0};
  int n() const { return static_cast<int>(boost::math::constants::two_pi<double>() / step); }
};
Search make(Params p) {
  Search s;
  s.p = p;
  s.p.rewind();
  s.cells.addGeometry(cellOf(s.p, 0));
  if (s.p.draw(4) == 1) s.cells.addGeometry(cellOf(s.p, 200));
  s.width = 1.5 + 0.25 * s.p.draw(12);
  if (s.p.draw(8) == 7) s.width = 5 + 5 * s.p.draw(30);   // some angles get no swath
  switch (s.p.draw(8)) {
    case 0: s.step = boost::math::constants::degree<double>() * (4 + s.p.draw(20)); break;
    case 1: s.step = boost::math::constants::half_pi<double>() / (1 + s.p.draw(6)); break;  // exact ties
    case 2: s.step = 2.1 + 0.1 * s.p.draw(45); break;  // one or two candidates, even none
    default: s.step = 0.15 + 0.05 * s.p.draw(30);
  }
  s.overlap = s.p.draw(3) == 1;
  s.objective = s.p.draw(kObjectives);
  if (s.p.draw(5) == 4) {  // fine steps, for the objectives that are fast
    s.step = boost::math::constants::degree<double>() * (0.75 + 0.25 * s.p.draw(16));
    static const uint32_t fast[] = {1, 1, 9, 10};
    s.objective = fast[s.p.draw(4)];
  }
  s.whole = s.p.draw(2);
  return s;
}
// The harness's own scan.
std::string scan(const Search& s) {
  std::ostringstream out;
  for (size_t c = 0; c < s.cells.size(); ++c) {
    F2CCell cell = s.cells.getGeometry(c).clone();
    int n = s.n();
    std::vector<double> cost(n);
    for (int k = 0; k < n; ++k) {
      int i = (k * 7 + 3) % n;
      if (n % 7 == 0) i = n - 1 - k;
      auto obj = makeObjective(s.objective);
      f2c::sg::BruteForce fresh;
      fresh.setAllowOverlap(s.overlap);
      double ang = i * s.step;
      cost[i] = obj->isFastCompAvailable() ? obj->computeCostWithMinimizingSign(ang, s.width, cell)
        : obj->computeCostWithMinimizingSign(cell, fresh.generateSwaths(ang, s.width, cell));
    }
    int best = 0;
    for (int i = 1; i < n; ++i) if (cost[i] < cost[best]) best = i;
    f2c::sg::BruteForce fresh;
    fresh.setAllowOverlap(s.overlap);
    out << ser::num(best * s.step) << "\n" << ser::s(fresh.generateSwaths(best * s.step, s.width, cell)) << "\n";
  }
  return out.str();
}
// The same search by the library.
std::string search(const Search& s, f2c::sg::BruteForce& bf, f2c::obj::SGObjective& obj) {
  bf.setStepAngle(s.step);
  bf.setAllowOverlap(s.overlap);
  std::vector<double> angles;
  std::vector<F2CSwaths> sw;
  if (s.whole) {
    auto r = bf.generateBestSwaths(obj, s.width, s.cells);
    for (size_t c = 0; c < r.size(); ++c) sw.push_back(r[c]);
    for (size_t c = 0; c < s.cells.size(); ++c) angles.push_back(bf.computeBestAngle(obj, s.width, s.cells.getGeometry(c)));
  } else {
    for (size_t c = 0; c < s.cells.size(); ++c) {
      F2CCell cell = s.cells.getGeometry(c);
      angles.push_back(bf.computeBestAngle(obj, s.width, cell));
      sw.push_back(bf.generateBestSwaths(obj, s.width, cell));
    }
  }
  sim::Quiet quiet;
  std::ostringstream out;
  for (size_t c = 0; c < sw.size() && c < angles.size(); ++c) out << ser::num(angles[c]) << "\n" << ser::s(sw[c]) << "\n";
  if (sw.size() != angles.size()) out << "swaths of " << sw.size() << " cells";
  return out.str();
}
}  // namespace

void propertyRun() {
  uint32_t heap = sim::draw(sim::SCHED, 4);
  sim::recycleHeap(heap == 3 ? 1 : heap, 12345 + sim::draw(sim::SCHED, 1000));
  // one, or several at the same time with generators of their own
  uint32_t users = sim::draw(sim::OPS, 4) == 3 ? 2 : 1;
  uint32_t rounds = 1 + sim::draw(sim::OPS, 3);
  std::vector<std::vector<Search>> plan(users);
  std::vector<std::vector<std::string>> want(users), got(users);
  Params first = sim::makeParams(60);
  bool shared_cells = sim::draw(sim::OPS, 2);
  for (uint32_t u = 0; u < users; ++u)
    for (uint32_t r = 0; r < rounds; ++r) {
      Params p = u + r == 0 ? first : sim::draw(sim::OPS, 3) ? sim::siblingOf(first) : sim::makeParams(60);
      plan[u].push_back(make(p));
    }
  for (uint32_t u = 0; u < users; ++u)
    for (auto& s : plan[u]) want[u].push_back(s.n() > 0 ? sim::isolated([&] { return scan(s); }) : "");
  // the cells are only read: no write to them, by whoever
  sim::arenaOn();
  for (auto& v : plan) for (auto& s : v) { F2CCells c; for (size_t i = 0; i < s.cells.size(); ++i) c.addGeometry(s.cells.getGeometry(i).clone()); s.cells = c; }
  if (shared_cells) for (auto& v : plan) for (auto& s : v) if (s.p.v == first.v) s.cells = plan[0][0].cells;
  sim::arenaOff();
  sim::arenaProtect("a cell given to a best-angle search");
  auto user = [&](uint32_t u) {
    std::unique_ptr<f2c::sg::BruteForce> bf = std::make_unique<f2c::sg::BruteForce>();
    std::unique_ptr<f2c::obj::SGObjective> obj;
    uint32_t kind = 0;
    for (auto& s : plan[u]) {
      if (s.n() <= 0) continue;
      if (!obj || kind != s.objective) { obj = makeObjective(s.objective); kind = s.objective; }
      std::string g = search(s, *bf, *obj);
      sim::Quiet quiet;
      got[u].push_back(g);
    }
  };
  if (users == 1) user(0);
  else {
    std::vector<std::function<void()>> jobs;
    for (uint32_t u = 0; u < users; ++u) jobs.push_back([&, u] { user(u); });
    sim::runThreads(std::move(jobs));
  }
  sim::arenaRelease();
  auto st = sim::threadStats();
  for (uint32_t u = 0; u < users; ++u) {
    size_t k = 0;
    for (size_t r = 0; r < plan[u].size(); ++r) {
      auto& s = plan[u][r];
      if (s.n() <= 0) continue;
      const std::string& g = got[u][k++];
      if (g != want[u][r])
        sim::violation("best-angle", "search %zu of user %u (objective %s, step %g, %d candidates, width %g) differs from the scan: %s", r, u,
          objectiveName(s.objective), s.step, s.n(), s.width, sim::diff(want[u][r], g).c_str());
      sim::log("user %u search %zu: objective %s, %d candidates, %016llx", u, r, objectiveName(s.objective), s.n(), (unsigned long long)sim::hashStr(g));
      sim::count((std::string("op.") + objectiveName(s.objective)).c_str());
    }
  }
  sim::count("probe.parallel_loops", sim::parallelLoops());
  sim::count("probe.threads", st.threads);
  sim::count("fault.preemption", st.switches);
  sim::count("probe.accesses_checked", st.accesses);
  if (st.switches > 2) sim::nontrivial();
  sim::sig(st.interleaving);
  sim::log("interleaving %016llx", (unsigned long long)st.interleaving);
}
