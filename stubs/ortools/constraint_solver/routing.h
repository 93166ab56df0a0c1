// Simulated routing solver with the interface of or-tools' RoutingModel that
// Fields2Cover uses. Which tour it returns, whether it finds one before its
// time limit, and how much simulated time that takes, are decided by the
// simulator (see stubs/solver.cpp).
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <vector>

namespace operations_research {
struct RoutingNodeIndex {
  RoutingNodeIndex() : v(0) {}
  explicit RoutingNodeIndex(int x) : v(x) {}
  int value() const { return v; }
  int v;
};
class RoutingIndexManager {
 public:
  typedef RoutingNodeIndex NodeIndex;
  // One vehicle: indices 0..n-1 are nodes (the start index is the depot), n is
  // the end index, which maps to the depot again.
  RoutingIndexManager(int num_nodes, int, NodeIndex depot) : n(num_nodes), depot_(depot) {}
  NodeIndex IndexToNode(int64_t i) const { return i == n ? depot_ : NodeIndex(static_cast<int>(i)); }
  int64_t NodeToIndex(NodeIndex i) const { return i.value(); }
  int num_nodes() const { return n; }
  int num_indices() const { return n + 1; }
  int n;
  NodeIndex depot_;
};
class IntVar { public: int64_t i; };
class Assignment {
 public:
  int64_t Value(const IntVar* v) const { return next[v->i]; }
  std::vector<int64_t> next;
};
struct FirstSolutionStrategy { enum Value { AUTOMATIC = 15, PATH_CHEAPEST_ARC = 3 }; };
struct LocalSearchMetaheuristic { enum Value { AUTOMATIC = 6, GUIDED_LOCAL_SEARCH = 2 }; };
class Duration { public: void set_seconds(int64_t s) { sec = s; } int64_t seconds() const { return sec; } int64_t sec = 0; };
class RoutingSearchParameters {
 public:
  void set_use_full_propagation(bool) {}
  void set_first_solution_strategy(FirstSolutionStrategy::Value) {}
  void set_local_search_metaheuristic(LocalSearchMetaheuristic::Value v) { meta = v; }
  Duration* mutable_time_limit() { return &limit; }
  const Duration& time_limit() const { return limit; }
  void set_log_search(bool) {}
  Duration limit;
  LocalSearchMetaheuristic::Value meta = LocalSearchMetaheuristic::AUTOMATIC;
};
inline RoutingSearchParameters DefaultRoutingSearchParameters() { return {}; }
class RoutingModel {
 public:
  enum Status { ROUTING_NOT_SOLVED, ROUTING_SUCCESS, ROUTING_FAIL, ROUTING_FAIL_TIMEOUT, ROUTING_INVALID };
  explicit RoutingModel(const RoutingIndexManager& m) : m_(m), vars_(m.num_indices()) {
    for (size_t i = 0; i < vars_.size(); ++i) vars_[i].i = i;
  }
  int RegisterTransitCallback(std::function<int64_t(int64_t, int64_t)> cb) { cb_ = cb; return 0; }
  int RegisterTransitCallback(std::function<long long(long long, long long)> cb) {
    cb_ = [cb](int64_t a, int64_t b) -> int64_t { return cb(a, b); }; return 0; }
  template <class F> int RegisterTransitCallback(F f) {
    cb_ = [f](int64_t a, int64_t b) -> int64_t { return f(a, b); }; return 0; }
  void SetArcCostEvaluatorOfAllVehicles(int) {}
  const Assignment* SolveWithParameters(const RoutingSearchParameters& p);
  int64_t Start(int) const { return m_.depot_.value(); }
  int64_t End(int) const { return m_.n; }
  bool IsEnd(int64_t i) const { return i == m_.n; }
  const IntVar* NextVar(int64_t i) const { return &vars_[i]; }
  Status status() const { return status_; }
 private:
  const RoutingIndexManager& m_;
  std::vector<IntVar> vars_;
  std::function<int64_t(int64_t, int64_t)> cb_;
  std::unique_ptr<Assignment> sol_;
  Status status_ = ROUTING_NOT_SOLVED;
};
}  // namespace operations_research
