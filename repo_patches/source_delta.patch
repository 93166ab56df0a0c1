From 2d9432188f3c1882169ec0600864c86ff7b344ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 01/36] fix: Graph: removing an edge left the computed paths
 and costs in use

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 13 ++++++++-----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index f50b56d..c06adde 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -63,6 +63,9 @@ class Graph {
         int64_t INF = 1e15);
 
  protected:
+  /// Forget every computed path and cost. To be called when an edge changes.
+  void clearCache();
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index f840669..d015050 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -12,11 +12,7 @@ namespace f2c::types {
 
 Graph& Graph::addDirectedEdge(size_t from, size_t to, int64_t cost) {
   this->edges_[from][to] =  cost;
-  if (!this->next_.empty() || !this->distance_.empty()) {
-    this->next_.clear();
-    this->distance_.clear();
-    this->shortest_paths_.clear();
-  }
+  this->clearCache();
   return *this;
 }
 
@@ -30,12 +26,19 @@ Graph& Graph::removeDirectedEdge(size_t from, size_t to) {
     return *this;
   }
   this->edges_.at(from).erase(to);
+  this->clearCache();
   return *this;
 }
 Graph& Graph::removeEdge(size_t i, size_t j) {
   return this->removeDirectedEdge(i, j).removeDirectedEdge(j, i);
 }
 
+void Graph::clearCache() {
+  this->next_.clear();
+  this->distance_.clear();
+  this->shortest_paths_.clear();
+}
+
 size_t Graph::numNodes() const {
   return this->edges_.size();
 }
-- 
2.43.0


From d80bfd98932121ed2e98d5ea41447bb0ae4d9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 02/36] fix: Graph: matrices were too small for nodes without
 outgoing edges

---
 include/fields2cover/types/Graph.h |  3 +++
 src/fields2cover/types/Graph.cpp   | 29 +++++++++++++++++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index c06adde..39c8a20 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -66,6 +66,9 @@ class Graph {
   /// Forget every computed path and cost. To be called when an edge changes.
   void clearCache();
 
+  /// Number of rows and columns of the matrices addressed by node index.
+  size_t sizeOfIndices() const;
+
   void DFS(size_t from, size_t to,
     std::vector<std::vector<size_t>>& routes,
     std::vector<bool>& visited,
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index d015050..4dae619 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -70,9 +70,20 @@ int64_t Graph::getCostFromEdge(size_t from, size_t to, int64_t INF) const {
   return this->edges_.at(from).at(to);
 }
 
+size_t Graph::sizeOfIndices() const {
+  size_t n {0};
+  for (const auto& src : this->edges_) {
+    n = std::max(n, src.first + 1);
+    for (const auto& dest : src.second) {
+      n = std::max(n, dest.first + 1);
+    }
+  }
+  return n;
+}
+
 std::vector<std::vector<size_t>> Graph::allPathsBetween(
     size_t from, size_t to) const {
-  std::vector<bool> visited(this->numNodes(), false);
+  std::vector<bool> visited(std::max(this->sizeOfIndices(), from + 1), false);
   std::vector<std::vector<size_t>> routes(1);
   int route_index = 0;
   this->DFS(from, to, routes, visited, route_index);
@@ -103,7 +114,7 @@ void Graph::DFS(
 }
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
-  const size_t N = this->numNodes();
+  const size_t N = this->sizeOfIndices();
   this->distance_.assign(N, std::vector<int64_t>(N, INF));
   this->next_.assign(N, std::vector<int64_t>(N, -1));
   initializeMatrices(distance_,next_, INF);
@@ -114,7 +125,7 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
     std::vector<std::vector<int64_t>>& next,
     int64_t INF) {
 
-  const size_t N = this->numNodes();
+  const size_t N = dist.size();
 
   // Initialize distances and paths for direct connections
   for (const auto& src : this->edges_) {
@@ -122,7 +133,9 @@ void Graph::initializeMatrices(std::vector<std::vector<int64_t>>& dist,
       dist[src.first][dest.first] = dest.second;
       next[src.first][dest.first] = dest.first;
     }
-    dist[src.first][src.first] = 0;
+  }
+  for (size_t i = 0; i < N; ++i) {
+    dist[i][i] = 0;
   }
 
 
@@ -167,7 +180,7 @@ short_path_container_t& Graph::getPaths() {
     this->shortestPathsAndCosts();
   }
   if (shortest_paths_.empty()) {
-    const size_t N = this->numNodes();
+    const size_t N = next_.size();
     shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
@@ -195,7 +208,8 @@ std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
 
 std::vector<size_t> Graph::reconstructPath(size_t from,
     size_t to, std::vector<std::vector<int64_t>>& next) const {
-  if (from != to && next[from][to] != -1) {
+  if (from != to && from < next.size() && to < next.size() &&
+      next[from][to] != -1) {
     std::vector<size_t> path = {from};
     size_t current = from;
     while (current != to) {
@@ -212,6 +226,9 @@ int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
   if (this->numNodes() > 0 && this->distance_.size() == 0) {
     this->shortestPathsAndCosts(INF);
   }
+  if (from >= this->distance_.size() || to >= this->distance_.size()) {
+    return from == to ? 0 : INF;
+  }
   return this->distance_[from][to];
 }
 
-- 
2.43.0


From 10cd2367a1cf4bcdb487c8f8fdcfb09ba84e2c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 03/36] fix: Graph: an interrupted computation left half-built
 paths and costs in use

---
 src/fields2cover/types/Graph.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 4dae619..13b0efe 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -6,6 +6,7 @@
 
 #include <numeric>
 #include <algorithm>
+#include <utility>
 #include "fields2cover/types/Graph.h"
 
 namespace f2c::types {
@@ -115,9 +116,12 @@ void Graph::DFS(
 
 void  Graph::shortestPathsAndCosts(int64_t INF) {
   const size_t N = this->sizeOfIndices();
-  this->distance_.assign(N, std::vector<int64_t>(N, INF));
-  this->next_.assign(N, std::vector<int64_t>(N, -1));
-  initializeMatrices(distance_,next_, INF);
+  std::vector<std::vector<int64_t>> dist(N, std::vector<int64_t>(N, INF));
+  std::vector<std::vector<int64_t>> next(N, std::vector<int64_t>(N, -1));
+  initializeMatrices(dist, next, INF);
+  this->clearCache();
+  this->distance_ = std::move(dist);
+  this->next_ = std::move(next);
 }
 
 
@@ -181,7 +185,7 @@ short_path_container_t& Graph::getPaths() {
   }
   if (shortest_paths_.empty()) {
     const size_t N = next_.size();
-    shortest_paths_.assign(N, std::vector<std::vector<size_t>>(N));
+    short_path_container_t paths(N, std::vector<std::vector<size_t>>(N));
     for (size_t i = 0; i < N; ++i) {
       for (size_t j = 0; j < N; ++j) {
         if (i != j && next_[i][j] != -1) {
@@ -191,10 +195,11 @@ short_path_container_t& Graph::getPaths() {
             current = next_[current][j];
             path.push_back(current);
           }
-          shortest_paths_[i][j] = path;
+          paths[i][j] = path;
         }
       }
     }
+    shortest_paths_ = std::move(paths);
   }
   return this->shortest_paths_;
 }
-- 
2.43.0


From c71d8c7b49d88141e1c64ed3755b5b38bb0a8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:07 +0000
Subject: [PATCH 04/36] fix: Graph: unreachable nodes got the cost given to an
 earlier query

---
 include/fields2cover/types/Graph.h | 1 +
 src/fields2cover/types/Graph.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fields2cover/types/Graph.h b/include/fields2cover/types/Graph.h
index 39c8a20..7307c95 100644
--- a/include/fields2cover/types/Graph.h
+++ b/include/fields2cover/types/Graph.h
@@ -79,6 +79,7 @@ class Graph {
   short_path_container_t shortest_paths_;       // sequence of nodes
   std::vector<std::vector<int64_t>> distance_;  // costs of shortest paths
   std::vector<std::vector<int64_t>> next_;
+  int64_t cached_inf_ {0};                      // cost of unreachable nodes
 };
 
 }  // namespace f2c::types
diff --git a/src/fields2cover/types/Graph.cpp b/src/fields2cover/types/Graph.cpp
index 13b0efe..66458df 100644
--- a/src/fields2cover/types/Graph.cpp
+++ b/src/fields2cover/types/Graph.cpp
@@ -122,6 +122,7 @@ void  Graph::shortestPathsAndCosts(int64_t INF) {
   this->clearCache();
   this->distance_ = std::move(dist);
   this->next_ = std::move(next);
+  this->cached_inf_ = INF;
 }
 
 
@@ -205,7 +206,7 @@ short_path_container_t& Graph::getPaths() {
 }
 
 std::vector<size_t> Graph::shortestPath(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && (this->next_.empty() || this->distance_.empty())) {
+  if (this->next_.empty() || this->cached_inf_ != INF) {
     this->shortestPathsAndCosts(INF);
   }
   return this->reconstructPath(from, to, next_);
@@ -228,7 +229,7 @@ std::vector<size_t> Graph::reconstructPath(size_t from,
 }
 
 int64_t Graph::shortestPathCost(size_t from, size_t to, int64_t INF) {
-  if (this->numNodes() > 0 && this->distance_.size() == 0) {
+  if (this->distance_.empty() || this->cached_inf_ != INF) {
     this->shortestPathsAndCosts(INF);
   }
   if (from >= this->distance_.size() || to >= this->distance_.size()) {
-- 
2.43.0


From a67927e3dd80a13b0443413180ff4d28dfd6f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 05/36] fix: Geometries: destroying an iterator allocated
 memory, ending the program when it failed

---
 include/fields2cover/types/Geometries.h        | 1 +
 include/fields2cover/types/Geometries_impl.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries.h b/include/fields2cover/types/Geometries.h
index 012a268..50b45ca 100644
--- a/include/fields2cover/types/Geometries.h
+++ b/include/fields2cover/types/Geometries.h
@@ -37,6 +37,7 @@ struct Geometries : public Geometry<T, R> {
 
       bool m_bUpdateChecked = true;
       CHILDRENTYPE m_oChild{};
+      CHILDRENTYPE m_oChildBefore{};
       Geometries<SAMETYPE, T, R, CHILDRENTYPE>* m_poSelf = nullptr;
       int m_nPos = 0;
     };
diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 01e2ff6..16976f4 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -45,7 +45,8 @@ void Geometries<SAMETYPE, T, R, CHILDRENTYPE>::Iterator::update() {
     std::is_same<T, OGRLinearRing>::value ||
     std::is_same<T, OGRLineString>::value) {
     if (!m_poPrivate->m_bUpdateChecked) {
-      CHILDRENTYPE oChildBefore;
+      // Called by the destructor: it must not allocate memory.
+      CHILDRENTYPE& oChildBefore = m_poPrivate->m_oChildBefore;
       static_cast<SAMETYPE*>(m_poPrivate->m_poSelf)->getGeometry(
         m_poPrivate->m_nPos, oChildBefore);
       if (oChildBefore != m_poPrivate->m_oChild) {
-- 
2.43.0


From 1599848badd74f9f3088f7575c61644a0b5604a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 06/36] fix: Geometries: clone rounded the coordinates to 15
 digits

---
 include/fields2cover/types/Geometries_impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 16976f4..f80abd3 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -17,9 +17,7 @@ double Geometries<SAMETYPE, T, R, CHILDRENTYPE>::area() const {
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
-  SAMETYPE cloned;
-  cloned.importFromWkt(this->exportToWkt());
-  return cloned;
+  return SAMETYPE(this->data_.get());
 }
 
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
-- 
2.43.0


From 07436f20c602aaee3e574848cf7b05e2edc0adf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 07/36] fix: CubicSpline: the monotonic correction read past
 the end of its arrays

---
 src/fields2cover/utils/spline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 071787d..5afa7a5 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -160,6 +160,10 @@ void CubicSpline::SetSplineCubic() {
         changed = true;
       }
 
+      if (i + 1 == size_) {
+        break;  // There is no segment after the last point.
+      }
+
       double slope = (y_vec_[i_high] - y_vec_[i]) / h[i];
       if (slope == 0.0 && (b_vec_[i] != 0.0 || b_vec_[i + 1] != 0.0)) {
         b_vec_[i] = 0.0;
@@ -177,7 +181,7 @@ void CubicSpline::SetSplineCubic() {
     }
 
     if (changed) {
-      for (unsigned int i = 0; i < size_; i++) {
+      for (unsigned int i = 0; i + 1 < size_; i++) {
         double inv_h = 1.0 / h[i];
         c_vec_[i] = inv_h * (3.0 * inv_h * (y_vec_[i + 1] - y_vec_[i])
                              - 2.0 * b_vec_[i] - b_vec_[i + 1]);
-- 
2.43.0


From 0093d8e78e3f3294de67fc1091aa84b78d5d7d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:20 +0000
Subject: [PATCH 08/36] fix: CubicSpline: SetPoints kept slopes of the former
 points, and mixed both when it failed

---
 src/fields2cover/utils/spline.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/fields2cover/utils/spline.cpp b/src/fields2cover/utils/spline.cpp
index 5afa7a5..a544568 100644
--- a/src/fields2cover/utils/spline.cpp
+++ b/src/fields2cover/utils/spline.cpp
@@ -68,20 +68,8 @@ CubicSpline::~CubicSpline() = default;
 void CubicSpline::SetPoints(
     const std::vector<double> &x, const std::vector<double> &y,
     bool monotonic) {
-  check_error(x.size() == y.size(),
-      "In CubicSpline SetPoints, x vector size != y vector size\n");
-  check_error(x.size() > 1,
-      "In CubicSpline initialization, array size must be larger than 1\n");
-  size_ = x.size();
-  x_vec_ = x;
-  y_vec_ = y;
-  b_vec_.resize(size_);
-  c_vec_.resize(size_);
-  d_vec_.resize(size_);
-
-  monotonic_ = monotonic;
-
-  SetSpline();
+  // Points are only replaced if the new spline can be computed.
+  *this = CubicSpline(x, y, monotonic);
 }
 
 
-- 
2.43.0


From 7ff511660810d8be14146144da1def7ae60944c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 09/36] fix: MultiPoint: destroying an iterator allocated
 memory, ending the program when it failed

---
 src/fields2cover/types/MultiPoint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index 498b426..c4e89ea 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -36,7 +36,7 @@ void MultiPoint::getGeometry(size_t i, Point& point) {
     throw std::out_of_range(
         "MultiPoint does not contain point " + std::to_string(i));
   }
-  point = Point(data_->getGeometryRef(i), EmptyDestructor());
+  point.setPoint(*data_->getGeometryRef(i));
 }
 
 void MultiPoint::getGeometry(size_t i, Point& point) const {
@@ -44,7 +44,7 @@ void MultiPoint::getGeometry(size_t i, Point& point) const {
     throw std::out_of_range(
         "MultiPoint does not contain point " + std::to_string(i));
   }
-  point = Point(data_->getGeometryRef(i), EmptyDestructor());
+  point.setPoint(*data_->getGeometryRef(i));
 }
 
 Point MultiPoint::getGeometry(size_t i) {
-- 
2.43.0


From 3aeb1e32aec7ad303450f90bab812f7c9a078326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 10/36] fix: a geometry that could not be computed crashed the
 program

---
 include/fields2cover/types/Cell.h              |  5 +----
 include/fields2cover/types/Cells.h             |  5 +----
 include/fields2cover/types/Geometries_impl.hpp |  6 ++----
 include/fields2cover/types/Geometry_impl.hpp   | 10 +++++++---
 include/fields2cover/types/MultiLineString.h   | 10 ++--------
 5 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/include/fields2cover/types/Cell.h b/include/fields2cover/types/Cell.h
index f7ce491..9e90b95 100644
--- a/include/fields2cover/types/Cell.h
+++ b/include/fields2cover/types/Cell.h
@@ -103,10 +103,7 @@ struct Cell : public Geometries<Cell, OGRPolygon, wkbPolygon, LinearRing> {
 
 template <class T, OGRwkbGeometryType R>
 Cell Cell::convexHull(const Geometry<T, R>& geom) {
-  OGRGeometry* c_hull = geom->ConvexHull();
-  Cell cell {c_hull};
-  OGRGeometryFactory::destroyGeometry(c_hull);
-  return cell;
+  return destroyResGeom<Cell>(geom->ConvexHull());
 }
 
 
diff --git a/include/fields2cover/types/Cells.h b/include/fields2cover/types/Cells.h
index c9271db..cfb90da 100644
--- a/include/fields2cover/types/Cells.h
+++ b/include/fields2cover/types/Cells.h
@@ -97,10 +97,7 @@ struct Cells : public Geometries<Cells, OGRMultiPolygon, wkbMultiPolygon,
 
 template <class T, OGRwkbGeometryType R>
 Cells Cells::buffer(const Geometry<T, R>& geom, double width, int side) {
-  OGRGeometry* buffer = geom.OGRBuffer(width, side);
-  Cells cells {buffer};
-  OGRGeometryFactory::destroyGeometry(buffer);
-  return cells;
+  return destroyResGeom<Cells>(geom.OGRBuffer(width, side));
 }
 
 
diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index f80abd3..3bcba08 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -23,10 +23,8 @@ SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::clone() const {
 template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
 SAMETYPE Geometries<SAMETYPE, T, R, CHILDRENTYPE>::simplify(
     double d_tol) const {
-  OGRGeometry* s = this->data_->SimplifyPreserveTopology(d_tol);
-  SAMETYPE f2c_s(s);
-  OGRGeometryFactory::destroyGeometry(s);
-  return f2c_s;
+  return Geometry<T, R>::template destroyResGeom<SAMETYPE>(
+      this->data_->SimplifyPreserveTopology(d_tol));
 }
 
 
diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index dc40a8a..1290bd2 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -11,6 +11,7 @@
 #include <cpl_conv.h>
 #include <geos_c.h>
 #include <memory>
+#include <stdexcept>
 #include <vector>
 #include <string>
 
@@ -279,9 +280,12 @@ inline To Geometry<T, R>::downCast(From *f) const {
 template <class T, OGRwkbGeometryType R>
 template<typename RetType>
 RetType Geometry<T, R>::destroyResGeom(OGRGeometry* g) {
-  RetType res(g);
-  OGRGeometryFactory::destroyGeometry(g);
-  return res;
+  std::unique_ptr<OGRGeometry, void(*)(OGRGeometry*)> geom(
+    g, OGRGeometryFactory::destroyGeometry);
+  if (!geom) {
+    throw std::runtime_error("The geometry could not be computed");
+  }
+  return RetType(static_cast<const OGRGeometry*>(geom.get()));
 }
 
 // ###############################
diff --git a/include/fields2cover/types/MultiLineString.h b/include/fields2cover/types/MultiLineString.h
index 5dc5514..8b67b6d 100644
--- a/include/fields2cover/types/MultiLineString.h
+++ b/include/fields2cover/types/MultiLineString.h
@@ -61,20 +61,14 @@ struct MultiLineString :
 
 template <class T, OGRwkbGeometryType R>
 MultiLineString MultiLineString::intersection(const Geometry<T, R>& g) const {
-  auto inter = this->data_->Intersection(g.get());
-  f2c::types::MultiLineString lines(inter);
-  OGRGeometryFactory::destroyGeometry(inter);
-  return lines;
+  return destroyResGeom<MultiLineString>(this->data_->Intersection(g.get()));
 }
 
 
 template <class T, OGRwkbGeometryType R>
 MultiLineString MultiLineString::intersection(
     const LineString& line, const Geometry<T, R>& g) {
-  auto inter = line->Intersection(g.get());
-  f2c::types::MultiLineString lines(inter);
-  OGRGeometryFactory::destroyGeometry(inter);
-  return lines;
+  return destroyResGeom<MultiLineString>(line->Intersection(g.get()));
 }
 
 
-- 
2.43.0


From 84dd92aa6e6aea9ce689c418866f5b5099226980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 11/36] fix: Path: serializing a path replaced the locale of
 the whole program

---
 src/fields2cover/types/Path.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 5fd6657..fba1cfa 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -281,7 +281,6 @@ std::string to_string(double d, const int precision = 6) {
 
 
 std::string Path::serializePath(size_t digit_precision) const {
-  std::locale::global(std::locale::classic());
   std::string res = "";
 
   for (size_t i = 0; i < size(); ++i) {
-- 
2.43.0


From 02a020d7a97ac0d61e31eacc15a7cd4f723b6dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 12/36] fix: Path: saveToFile ignored that the file could not
 be written

---
 src/fields2cover/types/Path.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index fba1cfa..9cad38c 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -5,6 +5,7 @@
 //=============================================================================
 
 #include <numeric>
+#include <stdexcept>
 #include <steering_functions/utilities/utilities.hpp>
 #include "fields2cover/utils/spline.h"
 #include "fields2cover/types/Path.h"
@@ -324,6 +325,9 @@ void Path::saveToFile(const std::string& file, size_t precision) const {
   std::ofstream out(file);
   out << serializePath(precision);
   out.close();
+  if (!out) {
+    throw std::runtime_error("The path could not be saved to " + file);
+  }
 }
 
 void Path::loadFile(const std::string& file) {
-- 
2.43.0


From 5438005e2fc1d9ce3329cceb5f957b1013fac02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 13/36] fix: Path: loadFile took unreadable files as empty,
 dropped torn states and depended on the locale

---
 src/fields2cover/types/Path.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 9cad38c..89a1d11 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -332,8 +332,18 @@ void Path::saveToFile(const std::string& file, size_t precision) const {
 
 void Path::loadFile(const std::string& file) {
   std::ifstream in(file);
+  if (!in) {
+    throw std::runtime_error("The path could not be loaded from " + file);
+  }
+  in.imbue(std::locale::classic());
+  std::vector<PathState> states;
   double x, y, z, ang, vel, len, dir, d_type;
-  while (in >> x >> y >> z >> ang >> vel >> len >> dir >> d_type) {
+  while ((in >> std::ws) && !in.eof()) {
+    if (!(in >> x >> y >> z >> ang >> vel >> len >> dir >> d_type) ||
+        (dir != 1 && dir != -1) ||
+        (d_type != 1 && d_type != 2 && d_type != 3)) {
+      throw std::runtime_error("There is not a complete path in " + file);
+    }
     PathState s;
     s.point = Point(x, y, z);
     s.angle = ang;
@@ -341,9 +351,12 @@ void Path::loadFile(const std::string& file) {
     s.len = len;
     s.dir = static_cast<f2c::types::PathDirection>(dir);
     s.type = static_cast<f2c::types::PathSectionType>(d_type);
-    this->states_.emplace_back(s);
+    states.emplace_back(s);
+  }
+  if (in.bad()) {
+    throw std::runtime_error("The path could not be loaded from " + file);
   }
-  in.close();
+  this->states_.insert(this->states_.end(), states.begin(), states.end());
 }
 
 Path& Path::populate(int number_points) {
-- 
2.43.0


From f60344f9ad6f45883bedf797d3cf46d26f6b7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 14/36] fix: Parser: gml imports crashed on or misread
 malformed files, dropped holes and changed the locale of the program

---
 src/fields2cover/utils/parser.cpp | 109 +++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 39 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index 9c8866c..fdb5e7e 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -7,6 +7,8 @@
 #include <tinyxml2.h>
 #include <boost/optional.hpp>
 #include <nlohmann/json.hpp>
+#include <locale>
+#include <sstream>
 #include "fields2cover/utils/parser.h"
 #include "fields2cover/utils/transformation.h"
 
@@ -18,20 +20,61 @@ void Parser::importGml(const std::string& file, F2CFields& fields) {
   fields.emplace_back(importFieldGml(file));
 }
 
+namespace {
+
+const tinyxml2::XMLElement* getXmlChild(
+    const tinyxml2::XMLElement* parent, const char* name) {
+  auto* child = parent->FirstChildElement(name);
+  if (child == nullptr) {
+    throw std::invalid_argument(std::string("Element not found: ") + name);
+  }
+  return child;
+}
+
+// Coordinates are separated by spaces, and their values by commas.
+F2CLinearRing getRingFromGml(const tinyxml2::XMLElement* boundary) {
+  auto* text = getXmlChild(getXmlChild(boundary, "gml:LinearRing"),
+      "gml:coordinates")->GetText();
+  std::istringstream coords(text == nullptr ? "" : text);
+  coords.imbue(std::locale::classic());
+  F2CLinearRing ring;
+  std::string coord;
+  while (coords >> coord) {
+    std::istringstream values(coord);
+    values.imbue(std::locale::classic());
+    double v[3] = {0.0, 0.0, 0.0};
+    char comma = ',';
+    int n = 0;
+    while (n < 3 && comma == ',' && values >> v[n]) {
+      comma = '\0';
+      ++n;
+      if (!(values >> comma)) {break;}
+    }
+    if (n < 2 || comma != '\0' || !values.eof()) {
+      throw std::invalid_argument("Wrong coordinate: " + coord);
+    }
+    ring.addPoint(F2CPoint(v[0], v[1], v[2]));
+  }
+  if (ring.size() == 0) {
+    throw std::invalid_argument("Polygon without coordinates");
+  }
+  return ring;
+}
+
+}  // namespace
+
 F2CField Parser::importFieldGml(
     const std::string& file, bool coord_frame_fail_silently) {
-  // Tinyxml2 depends on locale when parsing files. It may expect float numbers
-  // as "1,5" instead of "1.5", which is parsed as "1". The next line solves
-  // the issue.
-  std::locale::global(std::locale::classic());
-
   tinyxml2::XMLDocument doc;
-  doc.LoadFile(file.c_str());
+  auto error = doc.LoadFile(file.c_str());
   auto* p_parcel = doc.RootElement();
 
-  if (p_parcel == nullptr) {
+  if (error == tinyxml2::XML_ERROR_FILE_NOT_FOUND) {
     throw std::invalid_argument("File not found");
   }
+  if (error != tinyxml2::XML_SUCCESS || p_parcel == nullptr) {
+    throw std::invalid_argument("File could not be read: " + file);
+  }
 
   std::string id {""};
 
@@ -40,39 +83,27 @@ F2CField Parser::importFieldGml(
     id = e_result;
   }
 
-  auto* p_field = p_parcel->FirstChildElement("Field");
-
-  auto* p_polygon = p_field\
-            ->FirstChildElement("geometry")\
-            ->FirstChildElement("gml:Polygon");
-
-  std::string coord_sys = p_polygon->Attribute("srsName");
-
-  std::string p_coords = std::string(
-            p_polygon->FirstChildElement("gml:outerBoundaryIs")\
-            ->FirstChildElement("gml:LinearRing")\
-            ->FirstChildElement("gml:coordinates")\
-            ->GetText());
-  auto findAndReplaceAll =
-      [](std::string& data, std::string toSearch, std::string replaceStr) {
-            size_t pos = data.find(toSearch);
-            while (pos != std::string::npos) {
-                data.replace(pos, toSearch.size(), replaceStr);
-                pos = data.find(toSearch, pos + replaceStr.size());
-            }
-            return;
-      };
-  findAndReplaceAll(p_coords, ",", ";");
-  findAndReplaceAll(p_coords, " ", ", ");
-  findAndReplaceAll(p_coords, ";", " ");
-  p_coords = "POLYGON ((" + p_coords + "))";
-  OGRGeometry* new_geom{};
-  auto spt_ref = Transform::createSptRef(coord_sys, coord_frame_fail_silently);
-  OGRGeometryFactory::createFromWkt(p_coords.c_str(), spt_ref.get(), &new_geom);
-
-  F2CField field(F2CCells(new_geom), id);
+  auto* p_polygon = getXmlChild(getXmlChild(
+        getXmlChild(p_parcel, "Field"), "geometry"), "gml:Polygon");
+
+  auto* p_coord_sys = p_polygon->Attribute("srsName");
+  if (p_coord_sys == nullptr) {
+    throw std::invalid_argument("Polygon without coordinate system");
+  }
+  std::string coord_sys = p_coord_sys;
+  // Throws if the coordinate system is not known
+  Transform::createSptRef(coord_sys, coord_frame_fail_silently);
+
+  F2CCell cell;
+  cell.addRing(getRingFromGml(getXmlChild(p_polygon, "gml:outerBoundaryIs")));
+  for (auto* p_hole = p_polygon->FirstChildElement("gml:innerBoundaryIs");
+      p_hole != nullptr;
+      p_hole = p_hole->NextSiblingElement("gml:innerBoundaryIs")) {
+    cell.addRing(getRingFromGml(p_hole));
+  }
+
+  F2CField field(F2CCells(cell), id);
   field.setCRS(coord_sys);
-  OGRGeometryFactory::destroyGeometry(new_geom);
 
   return field;
 }
-- 
2.43.0


From c6a8917beebda64acee5a4f04a3ffaa6b0625d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 15/36] fix: Parser: json imports took malformed files for
 empty ones, invented coordinates and added half a file

---
 src/fields2cover/utils/parser.cpp | 60 ++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/fields2cover/utils/parser.cpp b/src/fields2cover/utils/parser.cpp
index fdb5e7e..6fe7250 100644
--- a/src/fields2cover/utils/parser.cpp
+++ b/src/fields2cover/utils/parser.cpp
@@ -109,73 +109,85 @@ F2CField Parser::importFieldGml(
 }
 
 
+namespace {
+
+const json& getJsonArray(const json& array) {
+  if (!array.is_array()) {
+    throw std::invalid_argument("Json element is not an array");
+  }
+  return array;
+}
+
+json getFeaturesFromJson(const std::string& file) {
+  std::ifstream f(file);
+  json imported = json::parse(f);
+  return getJsonArray(imported.at("features"));
+}
+
+}  // namespace
+
 F2CPoint getPointFromJson(const json& ps) {
+  getJsonArray(ps);
   if (ps.size() == 3) {
     return F2CPoint(ps[0], ps[1], ps[2]);
   } else if (ps.size() == 2) {
     return F2CPoint(ps[0], ps[1]);
   }
-  return F2CPoint();
+  throw std::invalid_argument("Json coordinate without 2 or 3 values");
 }
 
 F2CCell getCellFromJson(const json& imported_cell) {
   auto jsonToF2CRing = [] (const json& json_ring) {
     F2CLinearRing ring;
-    for (auto&& ps : json_ring) {
+    for (auto&& ps : getJsonArray(json_ring)) {
       ring.addPoint(getPointFromJson(ps));
     }
     return ring;
   };
   F2CCell cell;
-  auto json_rings = imported_cell["geometry"]["coordinates"];
-  for (int i = 0; i < json_rings.size(); ++i) {
-    cell.addRing(jsonToF2CRing(json_rings[i]));
+  auto json_rings = imported_cell.at("geometry").at("coordinates");
+  for (auto&& json_ring : getJsonArray(json_rings)) {
+    cell.addRing(jsonToF2CRing(json_ring));
   }
   return cell;
 }
 
 
 int Parser::importJson(const std::string& file, F2CFields& fields) {
-  std::ifstream f(file);
-  json imported_field = json::parse(f);
-
-  for (auto&& imported_cell : imported_field["features"]) {
-    fields.emplace_back(
+  F2CFields new_fields(fields);
+  for (auto&& imported_cell : getFeaturesFromJson(file)) {
+    new_fields.emplace_back(
       F2CField(F2CCells(getCellFromJson(imported_cell)),
-        imported_cell["properties"]["Name"]));
+        imported_cell.at("properties").at("Name")));
   }
+  fields.swap(new_fields);
   return 0;
 }
 
 F2CCell Parser::importCellJson(const std::string& file) {
-  std::ifstream f(file);
-  json imported_field = json::parse(f);
-  return getCellFromJson(imported_field["features"][0]);
+  return getCellFromJson(getFeaturesFromJson(file).at(0));
 }
 
 F2CSwaths Parser::importSwathsJson(const std::string& file) {
-  std::ifstream f(file);
-  json imported_swaths = json::parse(f);
   F2CSwaths swaths;
-  for (auto&& imported_swath : imported_swaths["features"]) {
+  for (auto&& imported_swath : getFeaturesFromJson(file)) {
     F2CLineString line;
-    for (auto&& ps : imported_swath["geometry"]["coordinates"]) {
+    for (auto&& ps :
+        getJsonArray(imported_swath.at("geometry").at("coordinates"))) {
       line.addPoint(getPointFromJson(ps));
     }
     swaths.emplace_back(line,
-      imported_swath["properties"]["width"],
-      imported_swath["properties"]["path_id"]);
+      imported_swath.at("properties").at("width"),
+      imported_swath.at("properties").at("path_id"));
   }
   return swaths;
 }
 
 F2CStrips Parser::importStripsJson(const std::string& file) {
-  std::ifstream f(file);
-  json imported_strips = json::parse(f);
   F2CStrips strips;
-  for (auto&& imported_strip : imported_strips["features"]) {
+  for (auto&& imported_strip : getFeaturesFromJson(file)) {
     F2CStrip strip;
-    strip.setName(imported_strip["properties"]["crop_id"]);
+    strip.setName(imported_strip.at("properties").at("crop_id"));
     strip.setCell(getCellFromJson(imported_strip));
     strips.emplace_back(strip);
   }
-- 
2.43.0


From 550fd0f4a6a176c926ad0422cc203f3ad95ec389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 16/36] fix: Swath: clone lost the type

---
 src/fields2cover/types/Swath.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index 8c6929f..e50faf5 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,7 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_};
+  Swath new_s {this->path_.clone(), this->width_, this->id_,
+    this->type_};
   new_s.setCreationDir(this->getCreationDir());
   return new_s;
 }
-- 
2.43.0


From 183ea0eb2bf65ec6643b1db7d0bb5d3048f9b61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 17/36] fix: Field: UTM zones of one digit lost their
 hemisphere

---
 src/fields2cover/types/Field.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 95b32ee..86f6a73 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -162,7 +162,8 @@ Cells Field::getCellsAbsPosition() const {
 }
 
 std::string Field::getUTMZone(const std::string& coord_sys) {
-  return getUTMCoordSystem(coord_sys).substr(0, 2);
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  return utm.substr(0, utm.find_first_not_of("0123456789"));
 }
 
 std::string Field::getUTMZone() const {
@@ -170,7 +171,8 @@ std::string Field::getUTMZone() const {
 }
 
 std::string Field::getUTMHemisphere(const std::string& coord_sys) {
-  std::string hemisphere {getUTMCoordSystem(coord_sys).substr(2, 1)};
+  std::string utm {getUTMCoordSystem(coord_sys)};
+  std::string hemisphere {utm.substr(getUTMZone(coord_sys).size())};
   if (hemisphere == "n" || hemisphere == "N") {
     return "+north";
   } else if (hemisphere == "s" || hemisphere == "S") {
-- 
2.43.0


From e68a1ed03cdf316d162a13b4ac8f9a16426d8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 18/36] fix: Field: clone lost the previous coordinate system,
 and the reference point of empty fields

---
 src/fields2cover/types/Field.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/types/Field.cpp b/src/fields2cover/types/Field.cpp
index 86f6a73..b967d26 100644
--- a/src/fields2cover/types/Field.cpp
+++ b/src/fields2cover/types/Field.cpp
@@ -76,6 +76,10 @@ void Field::setField(const Cells& _field) {
 Field Field::clone() const {
   Field new_field {this->field_ + this->ref_point_, this->id_};
   new_field.coord_sys_ = this->coord_sys_;
+  new_field.prev_coord_sys_ = this->prev_coord_sys_;
+  if (this->isEmpty()) {
+    new_field.ref_point_ = this->ref_point_.clone();
+  }
   return new_field;
 }
 
-- 
2.43.0


From 3472dc32e837a24b9f75cc12ee208f4e76709e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 19/36] fix: Transform: failed coordinate transformations
 crashed, were ignored, or left the field half changed

---
 include/fields2cover/utils/transformation.h |  8 ++-
 src/fields2cover/utils/transformation.cpp   | 65 +++++++++++++++------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/include/fields2cover/utils/transformation.h b/include/fields2cover/utils/transformation.h
index 80eb0de..5361cba 100644
--- a/include/fields2cover/utils/transformation.h
+++ b/include/fields2cover/utils/transformation.h
@@ -36,6 +36,11 @@ class Transform {
       const F2CField& field, const std::string& coord_sys_to);
 
 
+  /// Transform a geometry in place.
+  /// @throw std::runtime_error if any coordinate cannot be transformed
+  static void transformGeometry(
+      OGRGeometry* geom, OGRCoordinateTransformation* coords);
+
   static void transform(F2CField& field, const std::string& coord_sys_to);
 
   static void transformToUTM(F2CField& field, bool is_etrs89_opt = true);
@@ -91,7 +96,8 @@ template <class T>
 T Transform::transform(const T& t,
     const std::string& coord_sys_from, const std::string& coord_sys_to) {
   T new_t = t.clone();
-  new_t->transform(generateCoordTransf(coord_sys_from, coord_sys_to).get());
+  transformGeometry(new_t.get(),
+      generateCoordTransf(coord_sys_from, coord_sys_to).get());
   return new_t;
 }
 
diff --git a/src/fields2cover/utils/transformation.cpp b/src/fields2cover/utils/transformation.cpp
index d6897c5..a75fe71 100644
--- a/src/fields2cover/utils/transformation.cpp
+++ b/src/fields2cover/utils/transformation.cpp
@@ -17,19 +17,29 @@ std::unique_ptr<OGRCoordinateTransformation,
       createSptRef(coord_sys_from), createSptRef(coord_sys_to));
 }
 
+void Transform::transformGeometry(
+    OGRGeometry* geom, OGRCoordinateTransformation* coords) {
+  if (geom->transform(coords) != OGRERR_NONE) {
+    throw std::runtime_error("Coordinates could not be transformed");
+  }
+}
+
 void Transform::transform(F2CField& field, const std::string& coord_sys_to) {
+  // The field is only changed if everything could be transformed
+  F2CField new_field(field);
   if (!field.isEmpty()) {
-    field.setField(field.getField() + field.getRefPoint());
-    field.getField()->transform(
+    new_field.setField(field.getField() + field.getRefPoint());
+    transformGeometry(new_field.getField().get(),
         generateCoordTransf(field.getCRS(), coord_sys_to).get());
-    field.setRefPoint(field.getField().getCellBorder(0).startPoint());
-    field.setField(field.getField() - field.getRefPoint());
+    new_field.setRefPoint(new_field.getField().getCellBorder(0).startPoint());
+    new_field.setField(new_field.getField() - new_field.getRefPoint());
   } else {
-    field.setRefPoint( \
+    new_field.setRefPoint( \
         transform(field.getRefPoint(), field.getCRS(), coord_sys_to));
   }
-  field.setPrevCRS(field.getCRS());
-  field.setCRS(coord_sys_to);
+  new_field.setPrevCRS(field.getCRS());
+  new_field.setCRS(coord_sys_to);
+  field = std::move(new_field);
 }
 
 F2CRoute Transform::transformRouteWithFieldRef(const F2CRoute& route,
@@ -62,7 +72,7 @@ F2CPath Transform::transformPathWithFieldRef(const F2CPath& path,
   auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
   for (auto&& s : new_path) {
     s.point = s.point + field.getRefPoint();
-    s.point->transform(coords.get());
+    transformGeometry(s.point.get(), coords.get());
   }
   for (size_t i = 0; i < new_path.size() - 1; ++i) {
     new_path[i].len = new_path[i].point.distance(new_path[i+1].point);
@@ -79,7 +89,7 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
   auto coords = generateCoordTransf(field.getCRS(), coord_sys_to);
   for (auto&& p : mp) {
     F2CPoint abs_p = p + field.getRefPoint();
-    abs_p->transform(coords.get());
+    transformGeometry(abs_p.get(), coords.get());
     new_mp.addGeometry(abs_p);
   }
   return new_mp;
@@ -87,9 +97,11 @@ F2CMultiPoint Transform::transformMultiPointWithFieldRef(const F2CMultiPoint& mp
 
 F2CSwath Transform::transformSwathWithFieldRef(const F2CSwath& swath,
       const F2CField& field, const std::string& coord_sys_to) {
-  return F2CSwath(transform(
+  F2CSwath new_swath(transform(
         swath.getPath(), field.getRefPoint(), field.getCRS(), coord_sys_to),
-      swath.getWidth(), swath.getId());
+      swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CSwaths Transform::transformSwathsWithFieldRef(const F2CSwaths& swaths,
@@ -132,8 +144,10 @@ F2CSwaths Transform::transformSwaths(const F2CSwaths& swaths,
 
 F2CSwath Transform::transformSwath(const F2CSwath& swath,
       const std::string& coord_sys_from, const std::string& coord_sys_to) {
-  return F2CSwath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
-                   swath.getWidth(), swath.getId());
+  F2CSwath new_swath(transform(swath.getPath(), coord_sys_from, coord_sys_to),
+      swath.getWidth(), swath.getId(), swath.getType());
+  new_swath.setCreationDir(swath.getCreationDir());
+  return new_swath;
 }
 
 F2CPath Transform::transformPath(const F2CPath& path,
@@ -141,12 +155,14 @@ F2CPath Transform::transformPath(const F2CPath& path,
   auto new_path = path;
   auto coords = generateCoordTransf(coord_sys_from, coord_sys_to);
   for (auto&& s : new_path) {
-    s.point->transform(coords.get());
+    transformGeometry(s.point.get(), coords.get());
   }
   return new_path;
 }
 
-void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
+void Transform::transformToUTM(F2CField& original_field, bool is_etrs89_opt) {
+  // The field is only changed if everything could be transformed
+  F2CField field(original_field);
   std::string field_crs = field.getCRS();
   if (!field_crs.empty() && \
       field_crs != "EPSG:4258" && field_crs != "EPSG:4326") {
@@ -191,6 +207,7 @@ void Transform::transformToUTM(F2CField& field, bool is_etrs89_opt) {
       " datum:" + (field.getCRS() == "EPSG:4258" ? "ETRS89" : "WGS84");
   transform(field, utm_zone);
   field.setPrevCRS(field_crs);
+  original_field = std::move(field);
 }
 
 
@@ -234,7 +251,8 @@ F2CSwaths Transform::transformToPrevCRS(
 
 F2CPoint Transform::getRefPointInGPS(const F2CField& field) {
   auto point = field.getRefPoint();
-  point->transform(generateCoordTransf(field.getCRS(), "EPSG:4326").get());
+  transformGeometry(point.get(),
+      generateCoordTransf(field.getCRS(), "EPSG:4326").get());
   return point;
 }
 
@@ -245,10 +263,11 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
     std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>(
       new OGRSpatialReference(), [](OGRSpatialReference* ref) {
       OGRSpatialReference::DestroySpatialReference(ref);});
+  OGRErr error = OGRERR_NONE;
   if (coord_sys.empty() && !fail_silently) {
     throw std::invalid_argument("Coordinate system empty");
   } else if (F2CField::isCoordSystemEPSG(coord_sys)) {
-    spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
+    error = spt_ref->importFromEPSG(F2CField::getEPSGCoordSystem(coord_sys));
   } else if (F2CField::isCoordSystemUTM(coord_sys)) {
     std::string proj = (
       std::string("+proj=utm +zone=") + F2CField::getUTMZone(coord_sys) + " " +
@@ -257,10 +276,13 @@ std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)>
         " +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +type=crs" :
         " +datum=" + F2CField::getUTMDatum(coord_sys))
       + " +units=m +no_defs ");
-    spt_ref->importFromProj4(proj.c_str());
+    error = spt_ref->importFromProj4(proj.c_str());
   } else if (!fail_silently) {
     throw std::invalid_argument("Coordinate system not recognized");
   }
+  if (error != OGRERR_NONE && !fail_silently) {
+    throw std::invalid_argument("Coordinate system not recognized");
+  }
   if (GDALVersionInfo("VERSION_NUM")[0] == '3') {
     // Next line solve issue in https://github.com/OSGeo/gdal/issues/1546
     spt_ref->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
@@ -273,11 +295,16 @@ std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)> Transform::createCoordTransf(
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> in,
   std::unique_ptr<OGRSpatialReference, void(*)(OGRSpatialReference*)> out) {
-    return std::unique_ptr<OGRCoordinateTransformation,
+    auto coords = std::unique_ptr<OGRCoordinateTransformation,
       void(*)(OGRCoordinateTransformation*)>(
         OGRCreateCoordinateTransformation(in.get(), out.get()),
           [](OGRCoordinateTransformation* coord) {
             OGRCoordinateTransformation::DestroyCT(coord);});
+    if (coords == nullptr) {
+      throw std::invalid_argument(
+          "Transformation between coordinate systems could not be created");
+    }
+    return coords;
 }
 
 
-- 
2.43.0


From 315791d730ae2eca7772ca2ca7aa77c62bb6fac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 20/36] fix: Cell: isConvex ignored the vertex where the border
 starts

A cell with its only reflex vertex at the start of its border was taken as
convex, so Random::genConvexField could return non-convex fields.
---
 src/fields2cover/types/Cell.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index e82add0..28b94f0 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -146,14 +146,16 @@ bool Cell::isConvex() const {
   if (border.size() < 2) {
     return false;
   }
-  auto getAng = [&border] (size_t i) {
+  // The border is closed: its first vertex lies between its last and second.
+  const size_t n = border.size() - 1;
+  auto getAng = [&border, n] (size_t i) {
     return Point::getAngleFromPoints(
         border.getGeometry(i),
-        border.getGeometry(i + 1),
-        border.getGeometry(i + 2));
+        border.getGeometry((i + 1) % n),
+        border.getGeometry((i + 2) % n));
   };
   bool inv = M_PI > getAng(0);
-  for (size_t i = 1; i < border.size() - 2; ++i) {
+  for (size_t i = 1; i < n; ++i) {
     if (inv != (getAng(i) < M_PI)) {
       return false;
     }
-- 
2.43.0


From fe19ef0ece6825688d92a3ec3dc181fb9a204fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 21/36] fix: Swath: swaths without a width could not be cloned

---
 src/fields2cover/types/Swath.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index e50faf5..d5284a9 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -115,9 +115,8 @@ Cells Swath::areaCovered(const Cells& polys) const {
 }
 
 Swath Swath::clone() const {
-  Swath new_s {this->path_.clone(), this->width_, this->id_,
-    this->type_};
-  new_s.setCreationDir(this->getCreationDir());
+  Swath new_s {*this};
+  new_s.path_ = this->path_.clone();
   return new_s;
 }
 
-- 
2.43.0


From 6847a31dd2139d670bb9d9138c5e8ffe04cccf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 22/36] fix: appending parts of a container to itself used
 freed memory

---
 src/fields2cover/types/Path.cpp   | 6 ++++--
 src/fields2cover/types/Route.cpp  | 6 ++++--
 src/fields2cover/types/Swaths.cpp | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 89a1d11..525732a 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -98,8 +98,10 @@ PathState& Path::back() {
 }
 
 Path& Path::operator+=(const Path& path) {
-  for (auto&& new_state : path) {
-    this->states_.emplace_back(new_state);
+  // By index, as the path may be appended to itself.
+  const size_t n = path.size();
+  for (size_t i = 0; i < n; ++i) {
+    this->states_.emplace_back(path.states_[i]);
   }
   return *this;
 }
diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index f43a4fb..8144490 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -47,10 +47,11 @@ void Route::addSwath(const Swath& s) {
     this->connections_.emplace_back();
     ++nc;
   }
+  const Swath swath {s};  // s may be one of the swaths of the route.
   if (nc > ns || ns == 0) {
     this->v_swaths_.emplace_back();
   }
-  this->v_swaths_.back().emplace_back(s);
+  this->v_swaths_.back().emplace_back(swath);
 }
 
 void Route::addSwath(const Swath& s, Graph2D& g) {
@@ -75,7 +76,8 @@ void Route::addConnection(const MultiPoint& mp) {
   if (mp.size() < 1) {
     this->addConnection();
   }
-  for (auto&& p : mp) {
+  const MultiPoint points {mp};  // mp may be a connection of the route.
+  for (auto&& p : points) {
     this->addConnection(p);
   }
 }
diff --git a/src/fields2cover/types/Swaths.cpp b/src/fields2cover/types/Swaths.cpp
index e3cfa76..ee3f59c 100644
--- a/src/fields2cover/types/Swaths.cpp
+++ b/src/fields2cover/types/Swaths.cpp
@@ -119,8 +119,10 @@ void Swaths::append(const MultiLineString& lines, const Cells& polys,
 }
 
 void Swaths::append(const Swaths& swaths) {
-  for (auto&& s : swaths) {
-    this->emplace_back(s);
+  // By index, as the swaths may be appended to themselves.
+  const size_t n = swaths.size();
+  for (size_t i = 0; i < n; ++i) {
+    this->emplace_back(swaths[i]);
   }
 }
 
-- 
2.43.0


From 9a3f7c4dc013375ed28200b2593074508f6b7ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 23/36] fix: Geometries: small changes made through iterators
 were dropped

---
 include/fields2cover/types/Geometries_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index 3bcba08..a2df00b 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -45,7 +45,7 @@ void Geometries<SAMETYPE, T, R, CHILDRENTYPE>::Iterator::update() {
       CHILDRENTYPE& oChildBefore = m_poPrivate->m_oChildBefore;
       static_cast<SAMETYPE*>(m_poPrivate->m_poSelf)->getGeometry(
         m_poPrivate->m_nPos, oChildBefore);
-      if (oChildBefore != m_poPrivate->m_oChild) {
+      if (!oChildBefore.get()->Equals(m_poPrivate->m_oChild.get())) {
           static_cast<SAMETYPE*>(m_poPrivate->m_poSelf)->setGeometry(
              m_poPrivate->m_nPos, m_poPrivate->m_oChild);
       }
-- 
2.43.0


From bd56a0ae96066faabf980806095ff8ef000b40cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 24/36] fix: scaling and moving geometries out of memory left
 them half changed

---
 include/fields2cover/types/Geometries.h        |  4 ++++
 include/fields2cover/types/Geometries_impl.hpp |  9 +++++++++
 src/fields2cover/types/Cell.cpp                |  5 +++--
 src/fields2cover/types/Cells.cpp               | 11 +++++++++--
 src/fields2cover/types/LineString.cpp          |  4 +---
 src/fields2cover/types/LinearRing.cpp          |  4 +---
 src/fields2cover/types/MultiLineString.cpp     |  5 +++--
 src/fields2cover/types/MultiPoint.cpp          |  7 +++++--
 src/fields2cover/types/Path.cpp                |  5 ++++-
 src/fields2cover/types/Swath.cpp               |  6 ++++--
 10 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/include/fields2cover/types/Geometries.h b/include/fields2cover/types/Geometries.h
index 50b45ca..2d64b12 100644
--- a/include/fields2cover/types/Geometries.h
+++ b/include/fields2cover/types/Geometries.h
@@ -99,6 +99,10 @@ struct Geometries : public Geometry<T, R> {
 
   SAMETYPE& append(const SAMETYPE& other);
 
+ protected:
+  /// Scale the points of a curve where they are, without memory to allocate
+  static void scaleCurve(OGRSimpleCurve* curve, double b);
+
   #endif
 };
 
diff --git a/include/fields2cover/types/Geometries_impl.hpp b/include/fields2cover/types/Geometries_impl.hpp
index a2df00b..7a826da 100644
--- a/include/fields2cover/types/Geometries_impl.hpp
+++ b/include/fields2cover/types/Geometries_impl.hpp
@@ -197,6 +197,15 @@ SAMETYPE& Geometries<SAMETYPE, T, R, CHILDRENTYPE>::append(
   return *this;
 }
 
+template <class SAMETYPE, class T, OGRwkbGeometryType R, class CHILDRENTYPE>
+void Geometries<SAMETYPE, T, R, CHILDRENTYPE>::scaleCurve(
+    OGRSimpleCurve* curve, double b) {
+  for (int i = 0; i < curve->getNumPoints(); ++i) {
+    curve->setPoint(i,
+      curve->getX(i) * b, curve->getY(i) * b, curve->getZ(i) * b);
+  }
+}
+
 
 }  // namespace f2c::types
 
diff --git a/src/fields2cover/types/Cell.cpp b/src/fields2cover/types/Cell.cpp
index 28b94f0..4b720b4 100644
--- a/src/fields2cover/types/Cell.cpp
+++ b/src/fields2cover/types/Cell.cpp
@@ -91,8 +91,9 @@ size_t Cell::size() const {
 }
 
 void Cell::operator*=(double b) {
-  for (auto&& ring : *this) {
-    ring *= b;
+  for (size_t i = 0; i < this->size(); ++i) {
+    this->scaleCurve(i == 0 ? data_->getExteriorRing() :
+      data_->getInteriorRing(i - 1), b);
   }
 }
 
diff --git a/src/fields2cover/types/Cells.cpp b/src/fields2cover/types/Cells.cpp
index dd2bc96..824094f 100644
--- a/src/fields2cover/types/Cells.cpp
+++ b/src/fields2cover/types/Cells.cpp
@@ -55,8 +55,15 @@ Cells::Cells(const Cell& c) {
 }
 
 void Cells::operator*=(double b) {
-  for (auto&& poly : *this) {
-    poly *= b;
+  for (size_t i = 0; i < this->size(); ++i) {
+    OGRPolygon* poly = downCast<OGRPolygon*>(data_->getGeometryRef(i));
+    if (poly->IsEmpty()) {
+      continue;
+    }
+    this->scaleCurve(poly->getExteriorRing(), b);
+    for (int j = 0; j < poly->getNumInteriorRings(); ++j) {
+      this->scaleCurve(poly->getInteriorRing(j), b);
+    }
   }
 }
 
diff --git a/src/fields2cover/types/LineString.cpp b/src/fields2cover/types/LineString.cpp
index 489515b..47eb0b8 100644
--- a/src/fields2cover/types/LineString.cpp
+++ b/src/fields2cover/types/LineString.cpp
@@ -99,9 +99,7 @@ void LineString::addGeometry(const Point& p) {
 
 
 void LineString::operator*=(double b) {
-  for (auto&& p : *this) {
-    p *= b;
-  }
+  this->scaleCurve(data_.get(), b);
 }
 
 void LineString::addPoint(double x, double y, double z) {
diff --git a/src/fields2cover/types/LinearRing.cpp b/src/fields2cover/types/LinearRing.cpp
index 13db3a5..3362f32 100644
--- a/src/fields2cover/types/LinearRing.cpp
+++ b/src/fields2cover/types/LinearRing.cpp
@@ -29,9 +29,7 @@ LinearRing::LinearRing(const std::initializer_list<Point>& ps) {
 }
 
 void LinearRing::operator*=(double b) {
-  for (auto&& p : *this) {
-    p *= b;
-  }
+  this->scaleCurve(data_.get(), b);
 }
 
 double LinearRing::getX(size_t i) const {
diff --git a/src/fields2cover/types/MultiLineString.cpp b/src/fields2cover/types/MultiLineString.cpp
index 3d27195..51eae51 100644
--- a/src/fields2cover/types/MultiLineString.cpp
+++ b/src/fields2cover/types/MultiLineString.cpp
@@ -37,8 +37,9 @@ double MultiLineString::length() const {
 }
 
 void MultiLineString::operator*=(double b) {
-  for (auto&& r : *this) {
-    r *= b;
+  for (size_t i = 0; i < this->size(); ++i) {
+    this->scaleCurve(
+      downCast<OGRLineString*>(data_->getGeometryRef(i)), b);
   }
 }
 
diff --git a/src/fields2cover/types/MultiPoint.cpp b/src/fields2cover/types/MultiPoint.cpp
index c4e89ea..19b343d 100644
--- a/src/fields2cover/types/MultiPoint.cpp
+++ b/src/fields2cover/types/MultiPoint.cpp
@@ -101,8 +101,11 @@ void MultiPoint::addPoint(double x, double y, double z) {
 
 
 void MultiPoint::operator*=(double b) {
-  for (auto&& p : *this) {
-    p *= b;
+  for (size_t i = 0; i < this->size(); ++i) {
+    OGRPoint* p = downCast<OGRPoint*>(data_->getGeometryRef(i));
+    p->setX(p->getX() * b);
+    p->setY(p->getY() * b);
+    p->setZ(p->getZ() * b);
   }
 }
 
diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 525732a..49b0ecf 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -139,8 +139,11 @@ double Path::getDimMaxY() const {
 }
 
 void Path::moveTo(const Point& p) {
+  // p may be the point of a state.
+  const double x = p.getX(), y = p.getY(), z = p.getZ();
   for (auto&& s : this->states_) {
-    s.point = s.point + p;
+    s.point.setPoint(
+      s.point.getX() + x, s.point.getY() + y, s.point.getZ() + z);
   }
 }
 
diff --git a/src/fields2cover/types/Swath.cpp b/src/fields2cover/types/Swath.cpp
index d5284a9..5a5579f 100644
--- a/src/fields2cover/types/Swath.cpp
+++ b/src/fields2cover/types/Swath.cpp
@@ -192,8 +192,10 @@ void Swath::setType(SwathType _type) {
 }
 
 void Swath::moveTo(const Point& ref_pt) {
-  for (auto&& s : this->path_) {
-    s = s + ref_pt;
+  OGRLineString* line = this->path_.get();
+  for (int i = 0; i < line->getNumPoints(); ++i) {
+    line->setPoint(i, line->getX(i) + ref_pt.getX(),
+      line->getY(i) + ref_pt.getY(), line->getZ(i) + ref_pt.getZ());
   }
 }
 
-- 
2.43.0


From 458857db318077b97ad896bd64acd4487ffbd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:29 +0000
Subject: [PATCH 25/36] fix: Path: rotating and resampling paths out of memory
 left them half changed

---
 src/fields2cover/types/Path.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index 49b0ecf..e99da65 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -148,9 +148,14 @@ void Path::moveTo(const Point& p) {
 }
 
 void Path::rotateFromPoint(const Point& p, double ang) {
+  // p may be the point of a state.
+  std::vector<Point> points;
   for (auto&& s : this->states_) {
-    s.point = p.rotateFromPoint(ang, s.point);
-    s.angle = s.point.mod_2pi(s.angle + ang);
+    points.emplace_back(p.rotateFromPoint(ang, s.point));
+  }
+  for (size_t i = 0; i < this->size(); ++i) {
+    this->states_[i].point = points[i];
+    this->states_[i].angle = Point::mod_2pi(this->states_[i].angle + ang);
   }
 }
 
@@ -397,8 +402,7 @@ Path& Path::populate(int number_points) {
   CubicSpline s_y(t, y);
   CubicSpline s_ang(t, ang);
 
-  this->states_.clear();
-
+  Path new_path;
   double step = t.back() / static_cast<double>(number_points);
   PathState state;
   for (size_t i = 0; i < number_points; ++i) {
@@ -410,8 +414,9 @@ Path& Path::populate(int number_points) {
     state.velocity = old_vel[it];
     state.dir = old_dir[it];
     state.type = old_type[it];
-    this->addState(state);
+    new_path.addState(state);
   }
+  this->states_.swap(new_path.states_);
   return *this;
 }
 
@@ -439,7 +444,7 @@ Path& Path::reduce(double min_dist_equal) {
     new_path.states_.emplace_back(state);
     i = j;
   }
-  *this = new_path;
+  this->states_.swap(new_path.states_);
   return *this;
 }
 
@@ -455,8 +460,9 @@ LineString Path::toLineString() const {
 Path& Path::discretize(double step_size) {
   if (this->size() > 1) {
     int n = static_cast<int>((10.0 / step_size) * this->length());
-    this->populate(n);
-    this->reduce(step_size);
+    Path new_path {*this};
+    new_path.populate(n).reduce(step_size);
+    this->states_.swap(new_path.states_);
   }
   return *this;
 }
-- 
2.43.0


From 16c3c74afb2ab2181459362697fd3b79d68431c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 26/36] fix: Point: assigning to a point that was moved from
 crashed

---
 src/fields2cover/types/Point.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fields2cover/types/Point.cpp b/src/fields2cover/types/Point.cpp
index f0ff44f..a02c591 100644
--- a/src/fields2cover/types/Point.cpp
+++ b/src/fields2cover/types/Point.cpp
@@ -21,6 +21,10 @@ Point::Point(Point&& p) = default;
 Point::~Point() = default;
 
 Point& Point::operator=(Point&& p) {
+  if (!this->data_) {  // This point was moved from.
+    Geometry::operator=(std::move(p));
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
@@ -28,6 +32,10 @@ Point& Point::operator=(Point&& p) {
 }
 
 Point& Point::operator=(const Point& p) {
+  if (!this->data_) {  // This point was moved from.
+    Geometry::operator=(p.clone());
+    return *this;
+  }
   this->setX(p.X());
   this->setY(p.Y());
   this->setZ(p.Z());
-- 
2.43.0


From ea8ba4dc27ccb55a54b1336c282af248bbe1daef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 27/36] fix: Route: adding an empty connection of the route
 itself used freed memory

---
 src/fields2cover/types/Route.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/types/Route.cpp b/src/fields2cover/types/Route.cpp
index 8144490..fe6179d 100644
--- a/src/fields2cover/types/Route.cpp
+++ b/src/fields2cover/types/Route.cpp
@@ -73,10 +73,10 @@ void Route::addConnection(const Point& p) {
 }
 
 void Route::addConnection(const MultiPoint& mp) {
-  if (mp.size() < 1) {
+  const MultiPoint points {mp};  // mp may be a connection of the route.
+  if (points.size() < 1) {
     this->addConnection();
   }
-  const MultiPoint points {mp};  // mp may be a connection of the route.
   for (auto&& p : points) {
     this->addConnection(p);
   }
-- 
2.43.0


From 242334a40f8ff8b58c4d25cf7390d21fbba211a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:33 +0000
Subject: [PATCH 28/36] fix: SwathsByCells: reversing out of memory lost swaths

---
 src/fields2cover/types/SwathsByCells.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/types/SwathsByCells.cpp b/src/fields2cover/types/SwathsByCells.cpp
index cd4591c..8a1cb20 100644
--- a/src/fields2cover/types/SwathsByCells.cpp
+++ b/src/fields2cover/types/SwathsByCells.cpp
@@ -52,7 +52,9 @@ std::vector<Swaths>::const_iterator SwathsByCells::end() const {
 }
 
 void SwathsByCells::reverse() {
-  std::reverse(this->data_.begin(), this->data_.end());
+  // Swapping groups of swaths copies them, so it could fail halfway.
+  std::vector<Swaths> reversed(this->data_.rbegin(), this->data_.rend());
+  this->data_.swap(reversed);
 }
 
 Swaths& SwathsByCells::back() {
-- 
2.43.0


From 5da54c0099aba0b7fa8e97a59af346749e06580e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:59 +0000
Subject: [PATCH 29/36] fix: TurningBase: cached turns ignored the turn
 velocity and the discretization

---
 src/fields2cover/path_planning/turning_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fields2cover/path_planning/turning_base.cpp b/src/fields2cover/path_planning/turning_base.cpp
index c95ab81..fb2523e 100644
--- a/src/fields2cover/path_planning/turning_base.cpp
+++ b/src/fields2cover/path_planning/turning_base.cpp
@@ -83,6 +83,8 @@ F2CPath TurningBase::createTurnIfNotCached(const F2CRobot& robot,
   std::vector<int> v_turn {
         static_cast<int>(1e3 * robot.getMaxCurv()),
         static_cast<int>(1e3 * robot.getMaxDiffCurv()),
+        static_cast<int>(1e3 * robot.getTurnVel()),
+        static_cast<int>(1e6 * this->discretization),
         static_cast<int>(1e3 * dist_start_end),
         static_cast<int>(1e3 * start_angle),
         static_cast<int>(1e3 * end_angle)
-- 
2.43.0


From dc845027c8438a353800d08b42577da5460c6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 30/36] fix: RoutePlannerBase: crashed when the solver found no
 route

---
 src/fields2cover/route_planning/route_planner_base.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index 4bbbc86..cf69c02 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -9,6 +9,7 @@
 #include <ortools/constraint_solver/routing_index_manager.h>
 #include <ortools/constraint_solver/routing_parameters.h>
 #include <math.h>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 #include <limits>
@@ -177,6 +178,9 @@ std::vector<long long int> RoutePlannerBase::computeBestRoute(
   searchParameters.set_log_search(show_log);
   const ortools::Assignment* solution =
     routing.SolveWithParameters(searchParameters);
+  if (solution == nullptr) {
+    throw std::runtime_error("The solver did not find any route.");
+  }
 
   long long int index = routing.Start(0);
   std::vector<long long int> v_id;
-- 
2.43.0


From bf6d667e2c24090e981b95007a324d9658bfa9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 31/36] fix: RoutePlannerBase: a swath was lost when the start
 point is one of its ends

---
 src/fields2cover/route_planning/route_planner_base.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index cf69c02..fbd403a 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -150,7 +150,9 @@ F2CGraph2D RoutePlannerBase::createCoverageGraph(
 std::vector<long long int> RoutePlannerBase::computeBestRoute(
     const F2CGraph2D& cov_graph, bool show_log, long int time_limit_seconds,
     bool use_guided_local_search) const {
-  int depot_id = static_cast<int>(cov_graph.numNodes()-1);
+  // The start point may be also an end of a swath.
+  int depot_id = static_cast<int>(this->r_start_end ?
+      cov_graph.nodeToIndex(*this->r_start_end) : cov_graph.numNodes()-1);
   const ortools::RoutingIndexManager::NodeIndex depot{depot_id};
   ortools::RoutingIndexManager manager(cov_graph.numNodes(), 1, depot);
   ortools::RoutingModel routing(manager);
@@ -185,12 +187,18 @@ std::vector<long long int> RoutePlannerBase::computeBestRoute(
   long long int index = routing.Start(0);
   std::vector<long long int> v_id;
 
+  if (this->r_start_end) {
+    v_id.emplace_back(depot_id);
+  }
   index = solution->Value(routing.NextVar(index));
 
   while (!routing.IsEnd(index)) {
     v_id.emplace_back(manager.IndexToNode(index).value());
     index = solution->Value(routing.NextVar(index));
   }
+  if (this->r_start_end) {
+    v_id.emplace_back(depot_id);
+  }
   return v_id;
 }
 
-- 
2.43.0


From 44a558170e81b5b290f570f781a98615865bdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 32/36] fix: RoutePlannerBase: solutions that miss swaths were
 returned as routes

---
 .../route_planning/route_planner_base.cpp       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index fbd403a..e92169a 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -9,6 +9,7 @@
 #include <ortools/constraint_solver/routing_index_manager.h>
 #include <ortools/constraint_solver/routing_parameters.h>
 #include <math.h>
+#include <algorithm>
 #include <stdexcept>
 #include <utility>
 #include <vector>
@@ -23,6 +24,9 @@ F2CRoute RoutePlannerBase::genRoute(
     const F2CCells& cells, const F2CSwathsByCells& swaths,
     bool show_log, double d_tol, bool redirect_swaths,
     long int time_limit_seconds, bool search_for_optimum) {
+  if (swaths.sizeTotal() == 0) {
+    return F2CRoute();
+  }
   F2CGraph2D shortest_graph = createShortestGraph(cells, swaths, d_tol);
 
   F2CGraph2D cov_graph = createCoverageGraph(
@@ -209,10 +213,14 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
     F2CGraph2D& shortest_graph) const {
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
-  for (int i = 0; i < route_ids.size()-2; ++i) {
+  std::vector<bool> covered(NS, false);
+  for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
-    for (int j = 0; j < NS; ++j) {
+    for (size_t j = 0; j < NS; ++j) {
+      if (covered[j]) {
+        continue;
+      }
       F2CSwath swath = swaths_by_cells.getSwath(j).clone();
       if (p_s == swath.startPoint() && p_e == swath.endPoint()) {
         if (route.isEmpty() && r_start_end) {
@@ -220,6 +228,7 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
                 *r_start_end, swath.startPoint()));
         }
         route.addSwath(swath, shortest_graph);
+        covered[j] = true;
         break;
       } else if (p_e == swath.startPoint() && p_s == swath.endPoint()) {
         swath.reverse();
@@ -228,10 +237,14 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
                 *r_start_end, swath.startPoint()));
         }
         route.addSwath(swath, shortest_graph);
+        covered[j] = true;
         break;
       }
     }
   }
+  if (std::find(covered.begin(), covered.end(), false) != covered.end()) {
+    throw std::runtime_error("The solution does not cover all the swaths.");
+  }
   if (r_start_end) {
     route.addConnection(shortest_graph.shortestPath(
           route.endPoint(), *r_start_end));
-- 
2.43.0


From b4ed323494374419c823bc5d116898bdf9a104f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:39 +0000
Subject: [PATCH 33/36] fix: RoutePlannerBase: failed when the route starts at
 the first swath

---
 .../route_planning/route_planner_base.cpp     | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/fields2cover/route_planning/route_planner_base.cpp b/src/fields2cover/route_planning/route_planner_base.cpp
index e92169a..73f9ede 100644
--- a/src/fields2cover/route_planning/route_planner_base.cpp
+++ b/src/fields2cover/route_planning/route_planner_base.cpp
@@ -214,6 +214,18 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
   F2CRoute route;
   const size_t NS = swaths_by_cells.sizeTotal();
   std::vector<bool> covered(NS, false);
+  auto add_swath = [&] (const F2CSwath& swath) {
+    if (!route.isEmpty()) {
+      route.addSwath(swath, shortest_graph);
+      return;
+    }
+    if (r_start_end) {
+      // Empty if the route starts at the swath.
+      route.addConnection(shortest_graph.shortestPath(
+            *r_start_end, swath.startPoint()));
+    }
+    route.addSwath(swath);
+  };
   for (size_t i = 0; i + 2 < route_ids.size(); ++i) {
     F2CPoint p_s = coverage_graph.indexToNode(route_ids[i]);
     F2CPoint p_e = coverage_graph.indexToNode(route_ids[i+2]);
@@ -223,20 +235,12 @@ F2CRoute RoutePlannerBase::transformSolutionToRoute(
       }
       F2CSwath swath = swaths_by_cells.getSwath(j).clone();
       if (p_s == swath.startPoint() && p_e == swath.endPoint()) {
-        if (route.isEmpty() && r_start_end) {
-          route.addConnection(shortest_graph.shortestPath(
-                *r_start_end, swath.startPoint()));
-        }
-        route.addSwath(swath, shortest_graph);
+        add_swath(swath);
         covered[j] = true;
         break;
       } else if (p_e == swath.startPoint() && p_s == swath.endPoint()) {
         swath.reverse();
-        if (route.isEmpty() && r_start_end) {
-          route.addConnection(shortest_graph.shortestPath(
-                *r_start_end, swath.startPoint()));
-        }
-        route.addSwath(swath, shortest_graph);
+        add_swath(swath);
         covered[j] = true;
         break;
       }
-- 
2.43.0


From 097de6ad3fc6ff94e4f71b1f5cade312be9def1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:14 +0000
Subject: [PATCH 34/36] fix: the field coverage of no swaths read past the end
 of the list

---
 src/fields2cover/objectives/sg_obj/field_coverage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fields2cover/objectives/sg_obj/field_coverage.cpp b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
index f29b834..96190f3 100644
--- a/src/fields2cover/objectives/sg_obj/field_coverage.cpp
+++ b/src/fields2cover/objectives/sg_obj/field_coverage.cpp
@@ -15,6 +15,9 @@ double FieldCoverage::computeCost(
 
 double FieldCoverage::computeCost(
     const F2CCells& poly, const F2CSwaths& swaths) {
+  if (swaths.size() == 0) {
+    return 0.0;
+  }
   F2CMultiLineString lines;
   for (const auto& s : swaths) {
     lines.addGeometry(s.getPath());
-- 
2.43.0


From d7f4a8d108a198daa131535c326981e6004e6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 35/36] fix: Geometry: text of an export was lost when memory
 ran out

---
 include/fields2cover/types/Geometry_impl.hpp | 26 +++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/fields2cover/types/Geometry_impl.hpp b/include/fields2cover/types/Geometry_impl.hpp
index 1290bd2..654fbb6 100644
--- a/include/fields2cover/types/Geometry_impl.hpp
+++ b/include/fields2cover/types/Geometry_impl.hpp
@@ -228,33 +228,29 @@ template <class T, OGRwkbGeometryType R>
 std::string Geometry<T, R>::exportToWkt() const {
   char *pszWKT = nullptr;
   data_->exportToWkt(&pszWKT);
-  std::string result{pszWKT};
-  CPLFree(pszWKT);
-  return result;
+  const std::unique_ptr<char, void(*)(void*)> s(pszWKT, VSIFree);
+  return std::string(s.get());
 }
 
 template <class T, OGRwkbGeometryType R>
 std::string Geometry<T, R>::exportToGML() const {
-  char *s = data_->exportToGML();
-  std::string str(s);
-  CPLFree(s);
-  return str;
+  const std::unique_ptr<char, void(*)(void*)> s(
+      data_->exportToGML(), VSIFree);
+  return std::string(s.get());
 }
 
 template <class T, OGRwkbGeometryType R>
 std::string Geometry<T, R>::exportToKML() const {
-  char *s = data_->exportToKML();
-  std::string str(s);
-  CPLFree(s);
-  return str;
+  const std::unique_ptr<char, void(*)(void*)> s(
+      data_->exportToKML(), VSIFree);
+  return std::string(s.get());
 }
 
 template <class T, OGRwkbGeometryType R>
 std::string Geometry<T, R>::exportToJson() const {
-  char *s = data_->exportToJson();
-  std::string str(s);
-  CPLFree(s);
-  return str;
+  const std::unique_ptr<char, void(*)(void*)> s(
+      data_->exportToJson(), VSIFree);
+  return std::string(s.get());
 }
 
 template <class T, OGRwkbGeometryType R>
-- 
2.43.0


From 049b9e84aeb1993ecd87b77d79239b26a42987e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:40 +0000
Subject: [PATCH 36/36] fix: Path::serializePath: facets were lost when memory
 ran out

---
 src/fields2cover/types/Path.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/fields2cover/types/Path.cpp b/src/fields2cover/types/Path.cpp
index e99da65..b01f46e 100644
--- a/src/fields2cover/types/Path.cpp
+++ b/src/fields2cover/types/Path.cpp
@@ -268,24 +268,10 @@ Point Path::atEnd() const {
   return states_.back().atEnd();
 }
 
-template<typename CharT>
-class DecimalSeparator : public std::numpunct<CharT>{
- public:
-  explicit DecimalSeparator(CharT Separator) : m_Separator(Separator) {}
-
- protected:
-  CharT do_decimal_point() const {
-    return m_Separator;
-  }
-
- private:
-  CharT m_Separator;
-};
-
 std::string to_string(double d, const int precision = 6) {
   std::stringstream ss;
   ss.precision(precision);
-  ss.imbue(std::locale(std::locale(), new DecimalSeparator<char>('.')));
+  ss.imbue(std::locale::classic());
   ss << d;
   return ss.str();
 }
-- 
2.43.0

