#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    anchors = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: anchors["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})
S = "src/fields2cover/"
I = "include/fields2cover/"

prop("C01", "Parallel best-angle search equals the one-at-a-time search",
 "When the library is built with its parallel option, the best swath angle and the swaths generated for it are exactly those a one-at-a-time scan of the candidate angles would choose: the candidate of lowest cost, the earliest one on ties. This holds however the candidates are partitioned over threads and however those threads are interleaved. Candidates evaluated at the same time never touch shared memory in conflict, for any of the library's swath objectives and for any thread-safe user objective.",
 ["schedules", "inputs"],
 "Every partition of the candidates over threads, every interleaving of their memory accesses, every cell, operation width, angle step and objective.",
 "Tests are built without the parallel option and run one schedule; a race or an order-dependent choice needs a particular interleaving.",
 [S+"swath_generator/brute_force.cpp", S+"swath_generator/swath_generator_base.cpp", S+"objectives/sg_obj/", I+"swath_generator/brute_force.h"],
 "std::transform with a parallel execution policy over angle ids, then min_element; objectives and the generator are shared by reference between the evaluating threads.")

prop("C02", "Independent planning jobs never influence each other",
 "Planning operations on distinct objects (decomposition, headlands, swaths, ordering, routes, turns with separate planners, splines, graphs, coordinate transforms, imports, seeded generators, geometry types) share no hidden mutable state. Each job's results are identical to those it gives alone in a fresh process, whatever other jobs ran before it and however its steps interleave with other jobs' steps on other threads. Concurrent jobs never access shared memory in conflict.",
 ["schedules", "histories", "inputs"],
 "Every set of jobs, every order, every interleaving at memory-access granularity.",
 "Each test runs alone in one thread and checks one input; a hidden static, memo or scratch buffer only shows with another job before it or in the middle of it.",
 [S], "Library functions keep their state in their arguments and locals; no static mutable data.")

prop("C03", "Planning only reads its inputs, which threads may share",
 "Operations that take fields, cells, swaths, routes, robots, paths or graphs as read-only inputs leave them bit for bit as they were. Several threads may use the same input object at the same time, each obtaining the result it would obtain alone, with no conflicting memory access. A clone is independent: changing it, on any thread and at any moment, never changes the original or another clone.",
 ["schedules", "histories", "inputs"],
 "Every input, every set of operations sharing it, every interleaving; every later change to a clone.",
 "Tests call one operation at a time and look at its result, not at its inputs, and never share an object between threads.",
 [I+"types/", S+"types/", S+"decomposition/", S+"headland_generator/", S+"route_planning/", S+"objectives/"],
 "Types are handles on a shared geometry; const operations must copy before changing.",
 [("Geometry::data_", "shared handle of the OGR geometry; copies alias it, clone() does not")])

prop("C04", "A failed allocation or callback never corrupts planning",
 "When a memory allocation of the library, or an objective or turn planner supplied by the user, fails at any point of an operation, the operation ends by throwing: it neither crashes nor returns a partial or wrong result. Its read-only inputs are unchanged. Repeating the operation on the same objects afterwards gives the result it would have given had nothing failed.",
 ["fault_sequences", "inputs", "histories"],
 "Every allocation or callback of every operation as the failing one, every number of consecutive failures, every input.",
 "No test makes an allocation or a callback fail.",
 [S, I], "Exception propagation by RAII; results are built in locals and returned.")

prop("C05", "A geometry-engine failure never turns into a wrong plan",
 "When the geometry engine fails to compute an intersection, difference, union, buffer, hull or simplification in the middle of an operation, the operation throws. It does not crash, hang, or return geometry, swaths, areas or costs that silently miss what could not be computed. Inputs are unchanged, and the operation gives its normal result when it is repeated after the failure.",
 ["fault_sequences", "inputs"],
 "Every engine call of every operation as the failing one, every input.",
 "The engine never fails on the well-formed polygons of the tests; on real field boundaries it does (topology exceptions).",
 [I+"types/Geometry_impl.hpp", I+"types/Geometries_impl.hpp", S+"types/Cells.cpp", S+"types/Cell.cpp", S+"types/MultiLineString.cpp", S+"headland_generator/constant_headland.cpp"],
 "OGR returns a null geometry on GEOS failure; destroyResGeom and the callers turn it into a library object.")

prop("C06", "Imports deliver the file's exact content or report failure",
 "Importing fields, cells, swaths or strips from a file delivers exactly the rings, coordinates, ids and names the file holds, however the reads are split and whatever the process locale, or it throws. A missing, unreadable, truncated, half-written or malformed file, or a read error at any byte, never crashes the import and never yields partial or invented content. A file in a coordinate system that is not known is refused, unless the caller asks otherwise. A failed import leaves the caller's collection of fields as it was.",
 ["fault_sequences", "inputs", "configurations"],
 "Every read boundary, every read error position, every truncation point and flipped byte, every locale, every well-formed document.",
 "Tests import a few intact files with no I/O errors in the C locale.",
 [S+"utils/parser.cpp", I+"utils/parser.h"],
 "tinyxml2 and nlohmann::json over stdio and ifstream; the imported document is converted element by element.")

prop("C07", "A saved path is loaded back exactly, or the failure is reported",
 "A path of finite values whose save succeeds is read back with every state in order, each value within the precision it was saved with, whatever the process locale and however writes and reads are split. When the file cannot be completely written (disk full, I/O error, failing open or close), the save reports it. Loading a file that is missing, unreadable or torn within a state is reported too: it never yields states that were not saved, and leaves the path it was to extend as it was.",
 ["fault_sequences", "crash_points", "inputs", "configurations"],
 "Every path, precision, write or read error position, torn length and locale.",
 "Tests save and load one path on a healthy disk in the C locale; path files are not part of what is tested here at all.",
 [S+"types/Path.cpp", I+"types/Path.h"],
 "serializePath writes one text line per state; saveToFile and loadFile use fstreams.")

prop("C08", "A CRS change is complete or reported, never half applied",
 "Transforming a field, route, swath, strip, path or point to another coordinate system either converts every coordinate, and the recorded current and previous systems agree with the coordinates, or throws. When a coordinate system is unknown, the transformation cannot be created, or some point cannot be converted, nothing crashes and no object is left or returned with untransformed or mixed coordinates under the new label. A field on which the transformation failed is unchanged.",
 ["fault_sequences", "inputs", "histories"],
 "Every sequence of transformations, every failing step (definition lookup, pipeline creation, single point), every field.",
 "Tests convert valid fields with a working projection database only.",
 [S+"utils/transformation.cpp", S+"types/Field.cpp", I+"utils/transformation.h"],
 "The field is made absolute, transformed in place and made relative again; the labels are set at the end.",
 [("Field::coord_sys_, prev_coord_sys_, ref_point_", "labels and origin that must agree with the coordinates")])

prop("C09", "Graph queries reflect the current edges after any history",
 "After any sequence of adding, overwriting and removing edges, interleaved with queries and with failed allocations inside any of them, shortest path, path cost, cost matrix, edge and all-paths queries answer for exactly the current set of edges. A reported cost is the minimum over all paths, and a reported path is a real path of that cost; unreachable nodes are reported as such. This holds for graphs addressed by node index and by point, including nodes without outgoing edges.",
 ["histories", "fault_sequences", "inputs"],
 "Every history of edge changes and queries, with failures at any allocation inside them.",
 "Tests build small graphs once, then query; a stale or half-built cache needs a query between two changes or a failure inside one.",
 [S+"types/Graph.cpp", S+"types/Graph2D.cpp", I+"types/Graph.h"],
 "Lazy all-pairs cache (distance_, next_, shortest_paths_) that each change must invalidate.",
 [("distance_, next_, shortest_paths_", "cached all-pairs answers, valid only for the edges at the time they were computed")])

prop("C10", "Turn planning does not depend on what was planned before",
 "A turn planned with the turn cache on is the turn the same planner gives with the cache off, to within the cache's millimetre/milliradian rounding, after any history of turns, of planner settings changed in between, of robots with other curvatures or speeds, and of attempts in which the curve planner threw or memory ran out. The turn returned for valid input starts exactly at the requested start and ends exactly at the requested end, with the requested headings and the robot's turn speed. Copies of a planner and changes to a returned turn never affect other turns.",
 ["histories", "fault_sequences", "inputs"],
 "Every history of planner calls, setting changes and failures of the underlying curve planner or allocator.",
 "Tests plan turns from fresh planners or with one repeated call.",
 [S+"path_planning/turning_base.cpp", I+"path_planning/turning_base.h", S+"path_planning/dubins_curves.cpp"],
 "path_cache_ keyed by rounded turn parameters.",
 [("path_cache_", "turns planned earlier, reused for equal rounded parameters")])

prop("C11", "Any route the solver returns covers every swath exactly once",
 "Whatever valid tour the routing solver produces within its time limit, the route built from it contains every swath of the input exactly once, driven end to end, joined by continuous connections along the graph, and starting and ending at the start point when one is set. When the solver produces no solution before its time limit, or none that covers every swath, planning throws instead of crashing or returning a route that misses swaths. The start point may lie anywhere, also on the border or at the end of a swath. Reuse of the planner does not change its routes, and its inputs stay as they were.",
 ["fault_sequences", "inputs", "configurations"],
 "Every solver outcome (any tour respecting the graph, no solution, time limit reached), every set of cells and swaths.",
 "The route planner's result depends on an external anytime solver under a wall-clock limit: tests see one outcome per run.",
 [S+"route_planning/route_planner_base.cpp", S+"types/Route.cpp", S+"fields2cover.cpp"],
 "Coverage graph with a mid node per swath; the tour's ids are mapped back to swaths and shortest-path connections.")

prop("C12", "Each object holds exactly what its own successful calls put in it",
 "After any history of operations on several objects (appending, replacing, copying, cloning, moving, clearing points, rings, cells, lines, swaths, routes, fields, robots), in which any call may fail for lack of memory, every object's content, order and sizes are those its own successful calls produce. A call that failed left its target as it was, or, for calls that append or reorder several elements, with a prefix of them done; only plain copy assignment may leave it in between. Containers may be given parts of themselves. Clones never follow later changes of their source.",
 ["histories", "fault_sequences", "inputs"],
 "Every interleaved history over several objects with failures at any allocation.",
 "Tests check one or two calls per type and never a failing one.",
 [I+"types/", S+"types/"],
 "Vector-backed containers and shared-handle geometries.")

prop("C13", "Random fields are reproducible from their seed alone",
 "A generator constructed with a seed produces the same numbers, angles, cells and fields in every process, at any time, whatever the clock, other generators, other threads and their interleaving do; two generators never disturb each other, and a copy continues exactly as its original would. Every generated field is a valid closed polygon with the requested area and number of sides, convex or non-convex where that was requested. Numbers drawn from an interval lie inside it.",
 ["schedules", "histories", "inputs", "configurations"],
 "Every seed, call sequence, clock value and interleaving with other generators.",
 "Tests draw from one generator in one thread and use statistical or seed-specific expectations.",
 [S+"utils/random.cpp", I+"utils/random.h"],
 "A mersenne twister held per object; rejection loops build convex and non-convex cells.")

prop("C14", "Repeating an operation, failing or not, keeps nothing of it",
 "Repeating the same operation with the same inputs (generating headlands, swaths, routes, turns and paths, planning in one call, decomposing, editing and copying objects, converting coordinates, saving, loading and importing files, drawing random fields) does not make the process hold more heap memory or more open files with every repetition, neither with objects made anew each time and destroyed, nor with planner objects used again. This holds also when every repetition fails: memory runs out at some allocation, a user callback throws, the geometry engine or a coordinate service fails, a file is missing, unreadable, malformed or cannot be written, or the solver finds nothing.",
 ["fault_sequences", "histories", "inputs"],
 "Every operation, every input, every position at which an allocation, callback, engine call, coordinate service, file access or the solver fails, any number of repetitions.",
 "Tests run each operation once, never let it fail half way, and do not look at what remains.",
 [I+"types/Geometry_impl.hpp", S+"types/", S+"utils/transformation.cpp", S+"utils/parser.cpp", S+"path_planning/turning_base.cpp", S+"route_planning/route_planner_base.cpp"],
 "Raw geometries, GEOS contexts and coordinate systems of GDAL are owned by hand or by unique_ptr with a deleter; caches are members of planners.")

NA = "pure function of its input"
def na(id, title, statement, files, mech):
    prop(id, title, statement, ["inputs"], "Every input.", "Tests sample a handful of inputs.", files, mech)
na("C20", "Swaths cover the cell at the requested spacing",
 "The swaths generated for a cell lie inside it, are parallel at one operation width and leave uncovered only what the overlap setting allows.",
 [S+"swath_generator/swath_generator_base.cpp", S+"types/Swaths.cpp"], "Parallel lines clipped by the cell.")
na("C21", "Headlands are a constant-width band inside the field",
 "The remaining area after headland generation is inside the field and at least the headland width away from its borders, and headland swaths lie at their offsets inside the band.",
 [S+"headland_generator/constant_headland.cpp"], "Negative buffers of the cells.")
na("C22", "Decomposition partitions the field",
 "The cells of a decomposition do not overlap and together are the input field.",
 [S+"decomposition/"], "Splitting lines from the vertices.")
na("C23", "Swath orderings are permutations with alternating directions",
 "Boustrophedon, snake, spiral and custom orders visit each swath exactly once, in the announced pattern, with consecutive swaths driven in opposite directions.",
 [S+"route_planning/"], "Index permutations and direction flags.")
na("C24", "Objective values equal their definitions",
 "Each cost function computes the announced quantity with the sign that makes lower better.",
 [S+"objectives/"], "Arithmetic over geometry.")
na("C25", "Geometric primitives obey their mathematical definitions",
 "Angles, distances, rotations, intersections, areas, closest points and spline interpolation agree with their definitions.",
 [S+"types/", S+"utils/spline.cpp"], "Arithmetic and OGR/GEOS calls.")
na("C26", "Turns respect the robot's curvature limits",
 "Planned turns never exceed the maximal curvature and curvature change of the robot.",
 [S+"path_planning/"], "External steering library, absent here.")
na("C27", "Path resampling keeps geometry and length",
 "Discretising, populating or reducing a path keeps its end points, direction and length within the step size.",
 [S+"types/Path.cpp"], "Spline sampling.")
na("C28", "Visualisation draws what it is given",
 "Each plotted object appears with its coordinates.", [S+"utils/visualizer.cpp"], "External plotting library, absent here.")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
