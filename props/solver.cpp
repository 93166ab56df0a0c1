#include "solver.h"
#include <algorithm>
#include <ortools/constraint_solver/routing.h>

namespace {
solver::Plan g_plan;
solver::Stats g_st {};
uint64_t next(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
constexpr int64_t kFar = 1000000000;
}
namespace solver {
void set(const Plan& p) { g_plan = p; }
Stats stats() { return g_st; }
}

namespace operations_research {
const Assignment* RoutingModel::SolveWithParameters(const RoutingSearchParameters& p) {
#ifdef __SANITIZE_THREAD__
  // on several threads: no common counters
  solver::Stats g_st {};
#endif
  ++g_st.solves;
  g_st.allowed += p.time_limit().seconds();
  sol_.reset();
  uint64_t rnd = g_plan.order_seed;
  if (g_plan.fail || (g_plan.guided_only && p.meta != LocalSearchMetaheuristic::GUIDED_LOCAL_SEARCH)) {
    ++g_st.failed;
    g_st.sim_seconds += p.time_limit().seconds();  // the whole limit passes
    status_ = ROUTING_FAIL_TIMEOUT;
    return nullptr;
  }
  int n = m_.num_nodes();
  int depot = m_.depot_.value();
  std::vector<char> arc(n * n, 0);
  for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { int64_t c = a == b ? -1 : cb_(a, b); arc[a * n + b] = c >= 0 && c < kFar; }
  auto ok = [&](int a, int b) { return arc[a * n + b]; };
  // A cycle through all nodes along the arcs there are: depth first in a drawn
  // order, nodes with few arcs (the middles of swaths) first.
  std::vector<int> deg(n, 0), prefer(n);
  for (int a = 0; a < n; ++a) { prefer[a] = a; for (int b = 0; b < n; ++b) deg[a] += ok(a, b) + ok(b, a); }
  for (int i = n; g_plan.order_seed && i > 1; --i) std::swap(prefer[i - 1], prefer[next(rnd) % i]);
  std::stable_sort(prefer.begin(), prefer.end(), [&](int a, int b) { return (deg[a] <= 4) > (deg[b] <= 4); });
  std::vector<char> used(n, 0);
  std::vector<int> tour, pos(1, 0);
  long budget = 4000 + 40L * n;
  used[depot] = 1;
  // whether the few-armed neighbours of a node just left can still be passed
  auto alive = [&](int left, int at) {
    for (int m = 0; m < n; ++m) {
      if (used[m] || m == at || deg[m] > 4 || !(ok(left, m) || ok(m, left))) continue;
      bool in = false, out = false;
      int through = 0;
      for (int x = 0; x < n; ++x) {
        if (x == m || (used[x] && x != at && x != depot)) continue;
        in |= ok(x, m) && (x != depot || at == depot); out |= ok(m, x) && x != at; through += ok(x, m) || ok(m, x);
      }
      if (!in || !out || through < 2) return false;
    }
    return true;
  };
  while (true) {
    int at = tour.empty() ? depot : tour.back();
    if (static_cast<int>(tour.size()) == n - 1 && ok(at, depot)) break;
    int& i = pos.back();
    int found = -1;
    for (; i < n && found < 0; ++i) {
      int c = prefer[i];
      if (!used[c] && ok(at, c) && --budget > 0) {
        used[c] = 1;
        if (alive(at, c)) found = c; else used[c] = 0;
      }
    }
    if (found >= 0) { tour.push_back(found); pos.push_back(0); continue; }
    pos.pop_back();
    if (tour.empty() || budget <= 0) { tour.clear(); break; }
    used[tour.back()] = 0;
    tour.pop_back();
  }
  if (n > 1 && tour.empty()) {
    ++g_st.no_tour;
    if (!g_plan.any_arc) { status_ = ROUTING_FAIL; return nullptr; }
    ++g_st.any_arc;
    for (int c : prefer) if (c != depot) tour.push_back(c);
  }
  sol_ = std::make_unique<Assignment>();
  sol_->next.assign(m_.num_indices(), m_.n);
  int prev = depot;
  for (int t : tour) { sol_->next[prev] = t; prev = t; }
  sol_->next[prev] = m_.n;
  g_st.sim_seconds += p.meta == LocalSearchMetaheuristic::GUIDED_LOCAL_SEARCH ? p.time_limit().seconds() : 0.01;
  status_ = ROUTING_SUCCESS;
  return sol_.get();
}
}  // namespace operations_research
