// The simulated routing solver (or-tools is not installed): decides which valid
// tour is returned and whether one is found before the time limit.
#pragma once
#include <cstdint>
namespace solver {
struct Plan {
  uint64_t order_seed {0};   // selects the tour among the valid ones (0: node order)
  bool fail {false};         // no tour before the time limit
  bool guided_only {false};  // a tour is found only when guided search is asked for
  bool any_arc {false};      // where no tour respects the graph, one that does not (as or-tools, for which a missing arc is a costly one)
};
void set(const Plan& p);
struct Stats { uint64_t solves, failed, no_tour, any_arc; double sim_seconds, allowed; };  // allowed: the time limits of all solves together
Stats stats();
}  // namespace solver
