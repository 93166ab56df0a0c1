#include "userobj.h"
#include <atomic>
#include <cmath>
#include <limits>
#include <mutex>
namespace {
// coarse costs: most candidates tie
struct Coarse : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  double computeCost(const F2CCell&, const F2CSwaths& s) override { return static_cast<double>(s.size() / 4); }
};
struct Constant : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  double computeCost(const F2CCell&, const F2CSwaths&) override { return -0.0; }
};
// keeps a count under a lock
struct Locked : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  std::mutex m;
  uint64_t calls {0};
  double longest {0};
  double computeCost(const F2CSwath& s) override {
    double l = s.length();
    std::lock_guard<std::mutex> g(m);
    ++calls;
    if (l > longest) longest = l;
    return l * l;
  }
};
// keeps a count in an atomic
struct Atomic : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  std::atomic<uint64_t> calls {0};
  bool isMinimizing() const override { return false; }
  double computeCost(const F2CCell& c, const F2CSwaths& s) override {
    calls.fetch_add(1, std::memory_order_relaxed);
    double t = 0;
    for (auto& x : s) t += x.length();
    return t / c.area();
  }
};
struct Fast : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  bool isFastCompAvailable() const override { return true; }
  double computeCost(double a, double w, const F2CCell& c) override { return std::fabs(std::sin(2 * a + 0.4)) * c.area() / w; }
};
// infinite where it does not want to go
struct Barred : f2c::obj::SGObjective {
  using SGObjective::computeCost;
  bool isFastCompAvailable() const override { return true; }
  double computeCost(double a, double, const F2CCell&) override { return std::cos(a) > -0.8 ? std::numeric_limits<double>::infinity() : a; }
};
const char* const kNames[kObjectives] = {"NSwath", "NSwathModified", "SwathLength", "FieldCoverage", "Overlaps", "coarse", "constant", "locked", "atomic", "fast", "barred"};
}
std::unique_ptr<f2c::obj::SGObjective> makeObjective(uint32_t k) {
  switch (k) {
    case 0: return std::make_unique<f2c::obj::NSwath>();
    case 1: return std::make_unique<f2c::obj::NSwathModified>();
    case 2: return std::make_unique<f2c::obj::SwathLength>();
    case 3: return std::make_unique<f2c::obj::FieldCoverage>();
    case 4: return std::make_unique<f2c::obj::Overlaps>();
    case 5: return std::make_unique<Coarse>();
    case 6: return std::make_unique<Constant>();
    case 7: return std::make_unique<Locked>();
    case 8: return std::make_unique<Atomic>();
    case 9: return std::make_unique<Fast>();
    default: return std::make_unique<Barred>();
  }
}
const char* objectiveName(uint32_t k) { return kNames[k]; }
