// variant=asan uses=
// Graph histories: every query after every prefix of a random history of edge
// changes, queries and copies, with allocations failing inside any of them, is
// compared with a plain list of edges and Bellman-Ford over it.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <set>
#include "sim.h"
#include "fault.h"
#include "fields2cover.h"

const char* const kProperty = "C09";
using sim::OPS;
using sim::FAULT;

namespace {
typedef std::map<std::pair<int, int>, int64_t> Edges;
constexpr int64_t kUnreach = -1;

struct Model {
  Edges e;
  std::set<int> known;
  std::vector<int64_t> from(int s) const {
    std::map<int, int64_t> d {{s, 0}};
    for (size_t round = 0; round <= known.size(); ++round)
      for (auto& x : e) {
        auto it = d.find(x.first.first);
        if (it == d.end()) continue;
        int64_t c = it->second + x.second;
        auto jt = d.find(x.first.second);
        if (jt == d.end() || c < jt->second) d[x.first.second] = c;
      }
    std::vector<int64_t> r(64, kUnreach);
    for (auto& x : d) r[x.first] = x.second;
    return r;
  }
  void simplePaths(int at, int to, std::vector<int>& path, std::set<std::vector<int>>& out) const {
    path.push_back(at);
    if (at == to) out.insert(path);
    else for (auto& x : e)
      if (x.first.first == at && std::find(path.begin(), path.end(), x.first.second) == path.end())
        simplePaths(x.first.second, to, path, out);
    path.pop_back();
  }
};

// One interface over the index-addressed and the point-addressed graph.
struct Dut {
  bool two_d {false};
  f2c::types::Graph g;
  F2CGraph2D g2;
  static F2CPoint pt(int i) { return F2CPoint(3.0 * i, 7.0 * ((i * 5) % 4)); }
  size_t id(int i) { return two_d ? g2.nodeToIndex(pt(i)) : static_cast<size_t>(i); }
  f2c::types::Graph& base() { return two_d ? static_cast<f2c::types::Graph&>(g2) : g; }
};

struct Inst { Dut d; Model m; };

// Runs f with an allocation failing inside it (sometimes). Returns false when
// it ended with bad_alloc caused by the injected failure.
bool guarded(const char* what, const std::function<void()>& f, bool* failed_any = nullptr) {
  bool inject = sim::chance(FAULT, 1, 4);
  uint32_t k = 0, n = 1;
  if (inject) {
    k = 1 + sim::draw(FAULT, 3) * sim::draw(FAULT, 12) + sim::draw(FAULT, 4);
    n = sim::chance(FAULT, 1, 4) ? 1000000 : 1;
  }
  bool threw = false;
  std::string other;
  if (inject) sim::allocArm(k, n);
  try {
    f();
  } catch (const std::bad_alloc&) {
    threw = true;
  } catch (const std::out_of_range&) {
    sim::allocDisarm();
    throw;
  } catch (const std::exception& e) {
    other = e.what();
  }
  uint64_t failed = inject ? sim::allocDisarm() : 0;
  if (failed) sim::count("fault.alloc", failed);
  if (failed_any) *failed_any = failed > 0;
  if (!other.empty()) sim::violation("exception", "%s threw %s", what, other.c_str());
  if (threw && !failed) sim::violation("exception", "%s threw bad_alloc without a failed allocation", what);
  if (threw) { sim::log("%s: allocation %u failed", what, k); sim::nontrivial(); }
  return !threw;
}

void checkEdges(Inst& x, const Edges& want, const char* after) {
  for (int a : x.m.known) for (int b : x.m.known) {
    auto it = want.find({a, b});
    int64_t c = x.d.base().getCostFromEdge(x.d.id(a), x.d.id(b), -77);
    if (c != (it == want.end() ? -77 : it->second))
      sim::violation("edge", "after %s: edge %d->%d has cost %lld, expected %lld", after, a, b, (long long)c,
          (long long)(it == want.end() ? -77 : it->second));
  }
  size_t n = 0;
  for (auto& s : x.d.base().getEdges()) n += s.second.size();
  if (n != want.size() || x.d.base().numEdges() != want.size())
    sim::violation("edge", "after %s: %zu edges (numEdges %zu), expected %zu", after, n, x.d.base().numEdges(), want.size());
}

bool hasNode(Inst& x, int i) {
  if (!x.d.two_d) return true;
  try { x.d.g2.nodeToIndex(Dut::pt(i)); return true; } catch (const std::out_of_range&) { return false; }
}

// Adds or removes; a call that failed may have done a prefix of its two halves.
void change(Inst& x, const char* what, std::vector<std::pair<std::pair<int, int>, int64_t>> steps, bool add,
    const std::function<void()>& f) {
  if (guarded(what, f)) {
    for (auto& s : steps) { if (add) x.m.e[s.first] = s.second; else x.m.e.erase(s.first); }
    if (add) for (auto& s : steps) { x.m.known.insert(s.first.first); x.m.known.insert(s.first.second); }
    checkEdges(x, x.m.e, what);
    return;
  }
  // find which prefix was done
  Edges cur = x.m.e;
  for (size_t done = 0; done <= steps.size(); ++done) {
    bool same = true;
    for (auto& s : steps) {
      int a = s.first.first, b = s.first.second;
      int64_t c = hasNode(x, a) && hasNode(x, b) ? x.d.base().getCostFromEdge(x.d.id(a), x.d.id(b), -77) : -77;
      auto it = cur.find(s.first);
      if (c != (it == cur.end() ? -77 : it->second)) same = false;
    }
    if (same) {
      x.m.e = cur;
      for (auto& e : cur) { x.m.known.insert(e.first.first); x.m.known.insert(e.first.second); }
      checkEdges(x, x.m.e, "a failed change");
      sim::count("probe.failed_change");
      return;
    }
    if (done < steps.size()) { if (add) cur[steps[done].first] = steps[done].second; else cur.erase(steps[done].first); }
  }
  sim::violation("edge", "after failed %s: the edges are neither the old ones nor a prefix of the change", what);
}

void checkPath(Inst& x, int a, int b, const std::vector<int>& p, int64_t want) {
  if (a == b) return;  // no statement about the trivial path
  if (want == kUnreach) {
    if (!p.empty()) sim::violation("path", "path from %d to %d reported, but it is unreachable", a, b);
    return;
  }
  if (p.empty()) sim::violation("path", "no path from %d to %d reported, cost is %lld", a, b, (long long)want);
  int64_t c = 0;
  if (p.front() != a || p.back() != b) sim::violation("path", "path from %d to %d starts at %d, ends at %d", a, b, p.front(), p.back());
  for (size_t i = 0; i + 1 < p.size(); ++i) {
    auto it = x.m.e.find({p[i], p[i + 1]});
    if (it == x.m.e.end()) sim::violation("path", "path from %d to %d uses edge %d->%d, which is not there", a, b, p[i], p[i + 1]);
    c += it->second;
  }
  if (c != want) sim::violation("path", "path from %d to %d costs %lld, minimum is %lld", a, b, (long long)c, (long long)want);
}

int nodeOf(Inst& x, size_t id) {
  if (!x.d.two_d) return static_cast<int>(id);
  auto p = x.d.g2.indexToNode(id);
  for (int k : x.m.known) if (Dut::pt(k) == p) return k;
  sim::violation("path", "unknown node %zu in an answer", id);
}

const int64_t kInf[] = {1000000000000000LL, 1 << 30, 1000000};
}  // namespace

void propertyRun() {
  std::vector<std::unique_ptr<Inst>> g;
  bool two_d = sim::draw(OPS, 2);
  int universe = 3 + sim::draw(OPS, 5);
  bool sparse = !two_d && sim::draw(OPS, 3) == 2;
  auto node = [&]() { int k = sim::draw(OPS, universe); return sparse ? (k * 7) % 23 : k; };
  g.emplace_back(new Inst);
  g[0]->d.two_d = two_d;
  std::set<int64_t> infs {kInf[0]};
  int n_ops = 4 + sim::draw(OPS, 36);
  uint64_t shape = two_d;
  bool mutated_since_query = false, queried = false;
  for (int i = 0; i < n_ops; ++i) {
    Inst& x = *g[sim::draw(OPS, g.size())];
    Dut& d = x.d;
    uint32_t op = sim::draw(OPS, 16);
    int a = node(), b = node();
    int64_t cost = sim::draw(OPS, 4) == 3 ? 0 : 1 + sim::draw(OPS, 200);
    shape = shape * 31 + op * 7 + (x.m.known.count(a) ? 1 : 0) + (x.m.known.count(b) ? 2 : 0);
    auto P = [&](int k) { return Dut::pt(k); };
    if (op < 8) sim::count("op.change"); else sim::count("op.query");
    if (op < 6 && queried) mutated_since_query = true;
    switch (op) {
      case 0: case 1: case 2: {
        sim::log("add %d->%d %lld", a, b, (long long)cost);
        change(x, "addDirectedEdge", {{{a, b}, cost}}, true, [&] { if (d.two_d) d.g2.addDirectedEdge(P(a), P(b), cost); else d.g.addDirectedEdge(a, b, cost); });
        break;
      }
      case 3: {
        sim::log("add %d<->%d %lld", a, b, (long long)cost);
        change(x, "addEdge", {{{a, b}, cost}, {{b, a}, cost}}, true, [&] { if (d.two_d) d.g2.addEdge(P(a), P(b), cost); else d.g.addEdge(a, b, cost); });
        break;
      }
      case 4: case 5: {
        bool both = op == 5;
        sim::log("remove %d%s%d", a, both ? "<->" : "->", b);
        bool known = x.m.known.count(a) && x.m.known.count(b);
        try {
          std::vector<std::pair<std::pair<int, int>, int64_t>> steps {{{a, b}, 0}};
          if (both) steps.push_back({{b, a}, 0});
          change(x, "removeEdge", steps, false, [&] {
            if (d.two_d) { if (both) d.g2.removeEdge(P(a), P(b)); else d.g2.removeDirectedEdge(P(a), P(b)); }
            else { if (both) d.g.removeEdge(a, b); else d.g.removeDirectedEdge(a, b); } });
        } catch (const std::out_of_range&) {
          if (!d.two_d || known) sim::violation("exception", "removeEdge threw out_of_range for known nodes");
        }
        break;
      }
      case 6: {
        if (!d.two_d) {
          sim::log("remove unknown edge");
          d.g.removeDirectedEdge(40, a);
          checkEdges(x, x.m.e, "removing an unknown edge");
          break;
        }
        sim::log("add %d<->%d by distance", a, b);
        int64_t c = static_cast<int64_t>(1e3 * P(a).distance(P(b)));
        switch (sim::draw(OPS, 4)) {
          case 1:
            change(x, "addDirectedEdge", {{{a, b}, c}}, true, [&] { d.g2.addDirectedEdge(P(a), P(b)); });
            break;
          case 2: case 3: {
            // as long as the shortest ways through another graph
            if (a == b) break;
            F2CGraph2D ways;
            int64_t there = 1 + cost, back = 1 + sim::draw(OPS, 200);
            ways.addDirectedEdge(P(a), P(b), there + 3);
            ways.addDirectedEdge(P(b), P(a), back);
            ways.addDirectedEdge(P(a), F2CPoint(-9, 4), there - 1);
            ways.addDirectedEdge(F2CPoint(-9, 4), P(b), 1);
            if (sim::draw(OPS, 2)) change(x, "addEdge", {{{a, b}, there}, {{b, a}, back}}, true, [&] { d.g2.addEdge(P(a), P(b), ways); });
            else change(x, "addDirectedEdge", {{{a, b}, there}}, true, [&] { d.g2.addDirectedEdge(P(a), P(b), ways); });
            break;
          }
          default:
            change(x, "addEdge", {{{a, b}, c}, {{b, a}, c}}, true, [&] { d.g2.addEdge(P(a), P(b)); });
        }
        break;
      }
      case 7: {
        if (g.size() >= 3) break;
        sim::log("copy");
        std::unique_ptr<Inst> y(new Inst);
        y->m = x.m;
        y->d.two_d = d.two_d;
        bool how = sim::draw(OPS, 2);
        if (guarded("copy", [&] {
          if (how) { if (d.two_d) { F2CGraph2D t(d.g2); y->d.g2 = t; } else { f2c::types::Graph t(d.g); y->d.g = t; } }
          else { y->d.g = d.g; y->d.g2 = d.g2; } })) {
          checkEdges(*y, y->m.e, "copy");
          g.push_back(std::move(y));
          sim::count("probe.copy");
        }
        break;
      }
      case 8: case 9: {
        int64_t inf = kInf[sim::draw(OPS, 3)];
        infs.insert(inf);
        bool known = x.m.known.count(a) && x.m.known.count(b);
        int64_t got = 0;
        try {
          bool ok = guarded("shortestPathCost", [&] {
            if (d.two_d) got = d.g2.shortestPathCost(P(a), P(b), inf); else got = d.g.shortestPathCost(a, b, inf); });
          queried = true;
          if (!ok) break;
        } catch (const std::out_of_range&) {
          if (known) sim::violation("exception", "shortestPathCost threw out_of_range for known nodes");
          break;
        }
        if (!known) { if (a != b && got != inf) sim::violation("cost", "cost %d->%d is %lld although a node does not exist", a, b, (long long)got); break; }
        int64_t want = x.m.from(a)[b];
        sim::log("cost %d->%d = %lld", a, b, (long long)got);
        if (mutated_since_query) { sim::nontrivial(); sim::count("probe.query_after_change_after_query"); }
        if (got != (want == kUnreach ? inf : want))
          sim::violation("cost", "cost %d->%d is %lld, expected %lld%s", a, b, (long long)got,
              (long long)(want == kUnreach ? inf : want), want == kUnreach ? " (unreachable)" : "");
        break;
      }
      case 10: case 11: {
        int64_t inf = kInf[sim::draw(OPS, 3)];
        infs.insert(inf);
        bool known = x.m.known.count(a) && x.m.known.count(b);
        std::vector<int> p;
        try {
          std::vector<F2CPoint> pp;
          std::vector<size_t> pi;
          bool ok = guarded("shortestPath", [&] {
            if (d.two_d) pp = d.g2.shortestPath(P(a), P(b), inf); else pi = d.g.shortestPath(a, b, inf); });
          queried = true;
          if (!ok) break;
          for (auto& q : pp) { int k = -1; for (int c : x.m.known) if (P(c) == q) k = c; p.push_back(k); }
          for (auto& q : pi) p.push_back(static_cast<int>(q));
        } catch (const std::out_of_range&) {
          if (known) sim::violation("exception", "shortestPath threw out_of_range for known nodes");
          break;
        }
        if (!known) { if (a != b && !p.empty()) sim::violation("path", "path %d->%d reported although a node does not exist", a, b); break; }
        sim::log("path %d->%d: %zu nodes", a, b, p.size());
        checkPath(x, a, b, p, x.m.from(a)[b]);
        break;
      }
      case 12: {
        std::vector<std::vector<int64_t>> c;
        bool ok = guarded("getCosts", [&] { c = d.base().getCosts(); });
        queried = true;
        if (!ok) break;
        sim::log("getCosts %zu", c.size());
        std::set<int> cur;
        for (auto& e : x.m.e) { cur.insert(e.first.first); cur.insert(e.first.second); }
        for (int s : cur) {
          auto w = x.m.from(s);
          for (int t : cur) {
            size_t is = d.id(s), it = d.id(t);
            if (is >= c.size() || it >= c[is].size()) sim::violation("costs", "cost matrix of size %zu lacks %d->%d", c.size(), s, t);
            int64_t got = c[is][it];
            if (w[t] == kUnreach ? !infs.count(got) : got != w[t])
              sim::violation("costs", "cost matrix %d->%d is %lld, expected %lld", s, t, (long long)got, (long long)w[t]);
          }
        }
        break;
      }
      case 13: {
        f2c::types::short_path_container_t c;
        bool ok = guarded("getPaths", [&] { c = d.base().getPaths(); });
        queried = true;
        if (!ok) break;
        sim::log("getPaths %zu", c.size());
        std::set<int> cur;
        for (auto& e : x.m.e) { cur.insert(e.first.first); cur.insert(e.first.second); }
        for (int s : cur) {
          auto w = x.m.from(s);
          for (int t : cur) {
            size_t is = d.id(s), it = d.id(t);
            if (is >= c.size() || it >= c[is].size()) sim::violation("path", "path matrix of size %zu lacks %d->%d", c.size(), s, t);
            std::vector<int> p;
            for (auto k : c[is][it]) p.push_back(nodeOf(x, k));
            checkPath(x, s, t, p, w[t]);
          }
        }
        break;
      }
      case 14: {
        if (!x.m.known.count(a) || !x.m.known.count(b)) break;
        if (x.m.e.size() > 14) break;  // exponential
        std::vector<std::vector<int>> got;
        bool ok = guarded("allPathsBetween", [&] {
          if (d.two_d) {
            for (auto& r : d.g2.allPathsBetween(P(a), P(b))) {
              got.emplace_back();
              for (auto& q : r) { int k = -1; for (int c : x.m.known) if (P(c) == q) k = c; got.back().push_back(k); }
            }
          } else {
            for (auto& r : d.g.allPathsBetween(a, b)) got.emplace_back(r.begin(), r.end());
          } });
        if (!ok) break;
        std::set<std::vector<int>> want, s(got.begin(), got.end());
        std::vector<int> path;
        x.m.simplePaths(a, b, path, want);
        sim::log("allPaths %d->%d: %zu", a, b, got.size());
        if (s.size() != got.size()) sim::violation("allpaths", "paths %d->%d are reported twice", a, b);
        if (s != want) sim::violation("allpaths", "%zu paths %d->%d reported, there are %zu", s.size(), a, b, want.size());
        break;
      }
      default: {
        std::set<int> want, got;
        for (auto& e : x.m.e) if (e.first.first == a) want.insert(e.first.second);
        if (!hasNode(x, a)) break;
        size_t n = 0;
        for (auto t : d.base().getEdgesFrom(d.id(a))) { got.insert(nodeOf(x, t)); ++n; }
        sim::log("edges from %d: %zu", a, n);
        if (got != want || n != want.size()) sim::violation("edge", "edges from %d differ from the current ones", a);
        if (sim::draw(OPS, 2)) { int64_t inf = kInf[sim::draw(OPS, 3)]; infs.insert(inf); guarded("shortestPathsAndCosts", [&] { d.base().shortestPathsAndCosts(inf); }); }
      }
    }
  }
  sim::sig(shape);
}
