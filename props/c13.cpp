// variant=tsan uses=ops,ser,jobs,solver
// Histories of several random generators, interleaved with each other, with
// other users of randomness and time, with other planning work and on other
// threads. Oracle: each generator's own calls alone in a fresh process with
// another clock and entropy, and the geometry of what was generated.
#include <algorithm>
#include <cmath>
#include <functional>
#include <cstdlib>
#include <map>
#include <memory>
#include <random>
#include <unistd.h>
#include "fault.h"
#include "jobs.h"
#include "locales.h"
#include "threads.h"
const char* const kProperty = "C13";
using sim::OPS;
using sim::SCHED;

namespace {
struct CallP { uint32_t kind; double a, b; int n; };
const char* kNames[] = {"double", "linear", "exp", "expdist", "angle", "randField", "convexField", "nonConvexField", "randCell", "convexCell", "nonConvexCell", "bad"};

double cross(const OGRLinearRing* r, int n, int i) {
  auto X = [&](int k) { return r->getX(k % n); };
  auto Y = [&](int k) { return r->getY(k % n); };
  return (X(i + 1) - X(i)) * (Y(i + 2) - Y(i + 1)) - (Y(i + 1) - Y(i)) * (X(i + 2) - X(i + 1));
}
// "" or what is wrong
std::string checkCell(const OGRPolygon* p, double area, int sides, int convex, double minw, double maxw) {
  auto* r = p->getExteriorRing();
  if (!r || p->getNumInteriorRings()) return "no single ring";
  int n = r->getNumPoints() - 1;
  if (n != sides) return std::to_string(n) + " sides instead of " + std::to_string(sides);
  if (r->getX(0) != r->getX(n) || r->getY(0) != r->getY(n)) return "not closed";
  double s = 0, per = 0, lo = HUGE_VAL, hi = 0;
  for (int i = 0; i < n; ++i) {
    s += r->getX(i) * r->getY(i + 1) - r->getX(i + 1) * r->getY(i);
    per += std::hypot(r->getX(i) - r->getX(i + 1), r->getY(i) - r->getY(i + 1));
    double d = std::hypot(r->getX(i), r->getY(i));
    lo = std::min(lo, d); hi = std::max(hi, d);
  }
  s = std::fabs(s) / 2;
  if (!(std::fabs(s - area) <= 1e-9 * area + 1e-12 * per * per)) return "area " + ser::num(s) + " instead of " + ser::num(area);
  if (hi > lo * maxw / minw * (1 + 1e-9)) return "vertices between " + ser::num(lo) + " and " + ser::num(hi) + " from the centre";
  // crossing borders
  for (int i = 0; i < n; ++i) for (int j = i + 2; j < n; ++j) {
    if (i == 0 && j == n - 1) continue;
    auto side = [&](int a, int b, int c) { return (r->getX(b) - r->getX(a)) * (r->getY(c) - r->getY(a)) - (r->getY(b) - r->getY(a)) * (r->getX(c) - r->getX(a)); };
    if (side(i, i + 1, j) * side(i, i + 1, j + 1) < 0 && side(j, j + 1, i) * side(j, j + 1, i + 1) < 0) return "border crosses itself";
  }
  int pos = 0, neg = 0;
  for (int i = 0; i < n; ++i) { double c = cross(r, n, i); if (c > 1e-9 * per * per) ++pos; if (c < -1e-9 * per * per) ++neg; }
  if (convex == 1 && pos && neg) return "not convex";
  if (convex == 0) {
    int p0 = 0, n0 = 0;
    for (int i = 0; i < n; ++i) { double c = cross(r, n, i); if (c >= 0) ++p0; if (c <= 0) ++n0; }
    if (!p0 || !n0) return "convex";
  }
  return "";
}
std::string textOf(const F2CField& f) {
  return ser::s(f.getField()) + (f.isEmpty() ? "" : ser::s(f.getRefPoint())) + f.getCRS();
}
// The result as text; `wrong` says what it should not be.
std::string exec(f2c::Random& g, const CallP& c, std::string* wrong) {
  auto number = [&](double v, double lo, double hi) {
    if (wrong && !(v >= lo && v <= hi)) *wrong = ser::num(v) + " outside [" + ser::num(lo) + ", " + ser::num(hi) + "]";
    return ser::num(v);
  };
  auto field = [&](const F2CField& f, int sides, int convex, double lo, double hi) {
    if (wrong) {
      if (f.getField().size() != 1) *wrong = "not one cell";
      else {
        F2CCells abs = f.getCellsAbsPosition();
        *wrong = checkCell(abs.get()->getGeometryRef(0)->toPolygon(), c.a, sides, convex, lo, hi);
      }
    }
    return textOf(f);
  };
  auto cell = [&](const F2CCell& f, int sides, int convex, double lo, double hi) {
    if (wrong) *wrong = checkCell(f.get(), c.a, sides, convex, lo, hi);
    return ser::s(f);
  };
  try {
    switch (c.kind) {
      case 0: return number(g.getRandomDouble(), 0, 1);
      case 1: return number(g.getRandomLinear(c.a, c.b), c.a, c.b);
      case 2: return number(g.getRandomExp(c.a, c.b), c.a * (1 - 1e-12), c.b * (1 + 1e-12));
      case 3: return number(g.getRandomExpDist(c.a), 0, HUGE_VAL);
      case 4: {
        // many, as the ends of the interval are rarely met
        double h = 0;
        for (int i = 0; i < 20 * c.n; ++i) {
          double v = g.getAngleRandom();
          if (wrong && !(v >= 0 && v < 2 * M_PI)) *wrong = ser::num(v) + " is no angle in [0, 2 pi)";
          h = h * 0.75 + v;
        }
        return ser::num(h);
      }
      case 5: return field(g.generateRandField(c.a, c.n, c.b, 1.0), c.n, -1, c.b, 1.0);
      case 6: return field(g.genConvexField(c.a, c.n), c.n, 1, 0.5, 1.0);
      case 7: return field(g.genNonConvexField(c.a), 9, 0, 0.5, 1.0);
      case 8: return cell(g.generateRandCell(c.a, c.n), c.n, -1, 0.5, 1.0);
      case 9: return cell(g.genConvexCell(c.a, c.n), c.n, 1, 0.5, 1.0);
      case 10: return cell(g.genNonConvexCell(c.a), 9, 0, 0.5, 1.0);
      default: {
        auto r = g.generateRandField(c.b < 0.7 ? -c.a : c.a, c.b < 0.7 ? 5 : c.n % 3);
        if (wrong) *wrong = "accepted";
        return "!";
      }
    }
  } catch (const std::exception& e) {
    if (wrong && c.kind < 11) *wrong = std::string("threw ") + e.what();
    return "!";
  }
}
CallP drawCall() {
  CallP c;
  c.kind = sim::draw(OPS, 12);
  c.n = 3 + sim::draw(OPS, 15);
  // Convex cells with many sides take hundreds of tries.
  if (c.kind == 6 || c.kind == 9) c.n = 3 + sim::draw(OPS, sim::draw(OPS, 4) == 3 ? 9 : 5);
  c.a = std::pow(10.0, -2.0 + 0.25 * sim::draw(OPS, 33)) * (1 + 0.001 * sim::draw(OPS, 1000));
  c.b = 0.5 + 0.01 * sim::draw(OPS, 46);
  if (c.kind == 1) { c.a = -1000.0 + sim::draw(OPS, 2000); c.b = c.a + 0.001 * (1 + sim::draw(OPS, 1 << 20)); }
  if (c.kind == 2) c.b = c.a * (1.0 + 0.001 * (1 + sim::draw(OPS, 1 << 16)));
  return c;
}
// Who else uses randomness, time, memory or the processor meanwhile.
void noise(uint32_t k, uint32_t x, std::vector<void*>& junk) {
  static const char* const name[] = {"none", "fault.clock_forward", "fault.clock_back", "fault.libc_rand", "fault.memory_layout", "fault.locale", "fault.other_generator", "fault.entropy", "fault.other_work"};
  switch (k) {
    case 1: sim::clockAdvance(x % 100000); sim::simTime(x % 100000); break;
    case 2: sim::clockAdvance(-static_cast<double>(x % 1000000)); break;
    case 3: srand(x); rand(); srand48(x); drand48(); break;
    case 4: junk.push_back(malloc(16 + x % 5000)); break;
    case 5:
      std::locale::global(x % 2 ? std::locale(std::locale::classic(), new Punct(',', '.', "\3")) : std::locale::classic());
      setlocale(LC_ALL, cLocales()[x / 2 % 4]);
      break;
    case 6: { f2c::Random r; r.getRandomDouble(); r.getRandomExpDist(1 + x % 3); r.generateRandField(5, 5); break; }
    case 7: sim::entropySeed(x); { std::random_device d; (void)d(); } break;
    case 8: {
      sim::Params p; for (uint32_t i = 0; i < 200; ++i) p.v.push_back((x + i) * 2654435761u >> 12);
      World w = makeWorld(p); Tools t;
      std::vector<const Op*> light;
      for (auto& o : ops()) if (!(o.flags & (kHeavy | kFile))) light.push_back(&o);
      runOp(*light[x % light.size()], w, p, t);
      break;
    }
    default: return;
  }
  sim::count(name[k]);
  sim::nontrivial();
}
}  // namespace

void propertyInit() { loadLocales(); }
void propertyRun() {
  // The plan, drawn beforehand. A node is one call (or a seed, without one),
  // after the node before it in its generator's life.
  struct Node { int parent; uint32_t seed; CallP c; std::string ref; bool leaf; };
  struct Step { uint32_t act; size_t g, h; int node; uint32_t noise, x, how; };
  std::vector<Node> nodes;
  std::vector<int> at;
  std::vector<Step> plan;
  uint32_t n = 4 + sim::draw(OPS, 30);
  for (uint32_t i = 0; i < n; ++i) {
    Step s {};
    s.noise = sim::draw(SCHED, 9); s.x = sim::draw(SCHED, 1u << 30); s.how = sim::draw(SCHED, 8);
    uint32_t a = at.empty() ? 1 : sim::draw(OPS, 8);
    if (a == 1 && at.size() < 8) {  // new
      uint32_t k = sim::draw(OPS, 4);
      uint32_t seed = k == 0 ? sim::draw(OPS, 3) : k == 1 ? 0xffffffffu - sim::draw(OPS, 3) : sim::draw(OPS, 0x7fffffff);
      // seeds whose first number is next to 1, or next to 0
      static const uint32_t ends[] = {272838000u, 467081101u, 1000686894u, 3123099464u};
      if (sim::draw(OPS, 6) == 5) { seed = ends[sim::draw(OPS, 4)]; sim::count("probe.extreme_seed"); }
      else if (k == 3 && !at.empty()) { int j = at[sim::draw(OPS, at.size())]; seed = nodes[j].seed; }
      s.act = 0; s.g = at.size();
      nodes.push_back({-1, seed, {}, "", true});
      at.push_back(nodes.size() - 1);
    } else if (a == 2 && at.size() < 8) {  // copy
      s.act = 1; s.h = sim::draw(OPS, at.size()); s.g = at.size();
      at.push_back(at[s.h]);
    } else if (a == 3) {  // assign
      s.act = 2; s.g = sim::draw(OPS, at.size()); s.h = sim::draw(OPS, at.size());
      at[s.g] = at[s.h];
    } else {
      s.act = 3; s.g = sim::draw(OPS, at.size());
      Node d {at[s.g], nodes[at[s.g]].seed, drawCall(), "", true};
      nodes[at[s.g]].leaf = false;
      nodes.push_back(d);
      at[s.g] = nodes.size() - 1;
    }
    s.node = at[s.g];
    plan.push_back(s);
  }
  // Reference: each life from seed to last call alone in a fresh process.
  for (size_t i = 0; i < nodes.size(); ++i) {
    if (!nodes[i].leaf || nodes[i].parent < 0) continue;
    std::vector<int> life;
    for (int k = i; k >= 0; k = nodes[k].parent) life.insert(life.begin(), k);
    std::string text;
    try {
      text = sim::isolated([&] {
        sim::clockSet(1600000000);
        f2c::Random g(nodes[i].seed);
        std::string r;
        for (size_t k = 1; k < life.size(); ++k) r += exec(g, nodes[life[k]].c, nullptr) + "\n";
        return r;
      });
    } catch (const std::exception& e) { sim::violation("crash", "seed %u: %s", nodes[i].seed, e.what()); }
    size_t pos = 0;
    for (size_t k = 1; k < life.size(); ++k) {
      size_t e = text.find('\n', pos);
      std::string one = text.substr(pos, e - pos);
      pos = e + 1;
      auto& r = nodes[life[k]].ref;
      if (!r.empty() && r != one) sim::violation("history", "seed %u: call %zu gives %s or %s in fresh processes", nodes[i].seed, k, sim::brief(r).c_str(), sim::brief(one).c_str());
      r = one;
    }
  }
  // Different seeds, different numbers
  {
    auto first = [](uint32_t seed) { f2c::Random g(seed); std::string r; for (int i = 0; i < 6; ++i) r += ser::num(g.getRandomDouble()) + " "; return r; };
    std::map<std::string, uint32_t> seen;
    for (auto& d : nodes) if (d.parent < 0) {
      auto it = seen.emplace(first(d.seed), d.seed);
      if (!it.second && it.first->second != d.seed) sim::violation("seed", "seeds %u and %u give the same numbers", d.seed, it.first->second);
    }
  }
  // The history itself
  sim::clockSet(1000000000 + sim::draw(SCHED, 1 << 30));
  sim::entropySeed(sim::draw(SCHED, 1 << 30));
  std::vector<void*> junk;
  std::vector<std::unique_ptr<f2c::Random>> gens;
  struct Out { std::string got, wrong; };
  std::vector<Out> outs(plan.size());
  auto doIt = [&](size_t i) {
    auto& s = plan[i];
    std::string got, wrong;
    switch (s.act) {
      case 0: gens.push_back(std::make_unique<f2c::Random>(nodes[s.node].seed)); break;
      case 1: gens.push_back(std::make_unique<f2c::Random>(*gens[s.h])); break;
      case 2:
        if (s.how & 1) { f2c::Random t(*gens[s.h]); *gens[s.g] = std::move(t); }
        else *gens[s.g] = *gens[s.h];
        break;
      default:
        if (s.how == 7) { f2c::Random t(std::move(*gens[s.g])); *gens[s.g] = std::move(t); }
        got = exec(*gens[s.g], nodes[s.node].c, &wrong);
    }
    sim::Quiet quiet;
    outs[i] = {got, wrong};
  };
  for (size_t i = 0; i < plan.size(); ++i) {
    auto& s = plan[i];
    // calls on different generators that may overlap in time
    size_t end = i + 1;
    if (s.act == 3 && s.how >= 4) {
      std::vector<size_t> gs {s.g};
      while (end < plan.size() && end < i + 3 && plan[end].act == 3 && std::find(gs.begin(), gs.end(), plan[end].g) == gs.end()) gs.push_back(plan[end++].g);
    }
    const bool meanwhile = s.how >= 4 && (s.noise == 6 || s.noise == 8);
    if (!meanwhile) noise(s.noise, s.x, junk);
    sim::sig(s.act * 16 + s.noise);
    if (s.how < 4) doIt(i);
    else {
      std::vector<std::function<void()>> jobs;
      for (size_t k = i; k < end; ++k) jobs.push_back([&, k] { doIt(k); });
      if (meanwhile) jobs.push_back([&] { noise(s.noise, s.x, junk); });
      auto before = sim::threadStats();
      sim::runThreads(std::move(jobs));
      auto st = sim::threadStats();
      sim::count("fault.other_thread", st.threads - before.threads);
      sim::count("fault.preemption", st.switches - before.switches);
    }
    for (size_t k = i; k < end; ++k) {
      auto& s = plan[k];
      if (s.act != 3) continue;
      auto& [got, wrong] = outs[k];
      auto& c = nodes[s.node].c;
      sim::count((std::string("op.") + kNames[c.kind]).c_str());
      sim::sig(c.kind);
      sim::log("generator %zu (seed %u) %s(%g %g %d): %016llx", s.g, nodes[s.node].seed, kNames[c.kind], c.a, c.b, c.n, (unsigned long long)sim::hashStr(got));
      if (!wrong.empty()) sim::violation("invalid", "seed %u: %s(%.17g, %.17g, %d): %s: %s", nodes[s.node].seed, kNames[c.kind], c.a, c.b, c.n, wrong.c_str(), sim::brief(got, 400).c_str());
      if (got != nodes[s.node].ref) sim::violation("reproducible", "seed %u: %s differs from the same generator alone in a fresh process: %s", nodes[s.node].seed, kNames[c.kind], sim::diff(nodes[s.node].ref, got).c_str());
    }
    i = end - 1;
  }
  auto st = sim::threadStats();
  sim::count("probe.accesses_checked", st.accesses);
  sim::sig(st.interleaving);
  std::locale::global(std::locale::classic());
  setlocale(LC_ALL, "C");
  for (void* p : junk) free(p);
}
