"""What each check covers, in words (used for the evidence files)."""
REAL_COMPONENTS = {
    "asan": ["all of /repo/src except utils/visualizer.cpp, compiled with AddressSanitizer and libstdc++ assertions",
             "GDAL 3.8.4/OGR, GEOS 3.12.1, PROJ, tinyxml2, nlohmann_json, libstdc++ (real, behind fault seams)"],
    "tsan": ["all of /repo/src except utils/visualizer.cpp, compiled with thread instrumentation and ALLOW_PARALLELIZATION",
             "GDAL 3.8.4/OGR, GEOS 3.12.1, PROJ, tinyxml2, nlohmann_json, libstdc++ (real, not instrumented)"],
}
STUBS = {
    "asan": ["operator new/delete, clock, entropy, file calls, GEOS and CRS entry points: fault seams that forward to the real ones",
             "or-tools RoutingModel: simulated solver (the library is not installed)",
             "steering_functions: Dubins curves of the harness behind its class names (the library is not installed)"],
    "tsan": ["thread scheduler, mutexes, once-initialisation, memory-access instrumentation: the simulator's",
             "the C++ parallel-algorithms backend: the simulator's (in place of TBB)",
             "operator new/delete, clock, entropy: seams that forward to the real ones",
             "or-tools RoutingModel: simulated solver", "steering_functions: Dubins curves of the harness behind its class names"],
}
COMMON = ["behaviour of third-party libraries outside the injected faults is taken as it is",
          "a failed allocation is one made by code compiled into the program (the library and the templates it instantiates), not one inside GDAL, GEOS or PROJ"]
META = {
    "C09": dict(variant="asan", technique="deterministic simulation: seeded graph histories with failing allocations, refinement against an edge-list model", assumptions=COMMON + ["edge costs are non-negative and every path costs less than the INF passed"],
        rule="a run is a history of 4-40 additions, overwrites, removals, queries and copies on 1-3 graphs (addressed by index, sparse index or point), with failing allocations; non-trivial when a query follows a change that follows a query, or a call failed",
        measure="hash of the sequence of operation kinds and of whether their nodes existed"),
}
META["C04"] = dict(variant="asan", technique="deterministic simulation: allocation and callback failures at seeded points of operation chains, compared with a failure-free fresh process", assumptions=COMMON,
    rule="a run is 1-4 operations of the catalogue on one generated world and one set of planner objects, each attempted 1-3 times with an allocation or user callback failing at a drawn point, then repeated; non-trivial when a failure fired",
    measure="hash of operations, failure kinds and failure positions (64 bins)")
META["C05"] = dict(variant="asan", technique="deterministic simulation: geometry-engine failures at seeded calls of operation chains, compared with a failure-free fresh process", assumptions=COMMON + ["only the engine calls that construct geometry fail (a failing predicate is indistinguishable from 'no' through OGR)"],
    rule="a run is 1-4 operations of the catalogue that build geometry, on one generated world and one set of planner objects, each attempted 1-3 times with a geometry-engine call failing (alone, or with all later ones), then repeated; non-trivial when a failure fired",
    measure="hash of operations and failure positions (64 bins)")
META["C07"] = dict(variant="asan", technique="deterministic simulation: save/load histories on a simulated disk with short, failing and torn transfers and crashes, round-trip oracle",
    assumptions=["paths hold finite values", "a file torn exactly between two states is indistinguishable from a shorter path in the file format", "a write the system call reported as done is durable"],
    rule="a run saves and loads one generated path under a drawn locale and transfer sizes, also into a path that holds states, then 1-4 rounds of failing saves, renames and syncs, crashes while saving, torn or damaged files, read errors and failing opens; non-trivial when a fault was tried",
    measure="hash of state count, precision, locale and fault kinds")
META["C06"] = dict(variant="asan", technique="deterministic simulation: imports of generated, malformed and torn files on a simulated disk with short and failing transfers, compared with the harness's own model of the file",
    assumptions=["out of memory is only injected into the GML reader and the planners' own code: nlohmann_json aborts the process when memory runs out while it copies a document"],
    rule="a run writes 1-3 GML, GeoJSON or JSON files from a drawn model (some malformed, truncated or with missing parts), imports them under a drawn locale and transfer sizes, with open and read errors, and checks what was imported or that the failure was reported and the output untouched; non-trivial when a file was damaged or a fault fired",
    measure="hash of file kinds, damages and fault kinds")
META["C08"] = dict(variant="asan", technique="deterministic simulation: histories of coordinate-system changes with failing lookups, transformation creations and point conversions, compared with a point-by-point conversion by the harness",
    assumptions=["PROJ converts single points correctly", "the harness's tolerances (4 mm, 4 m for the Dutch grid whose datum shift depends on installed grids)"],
    rule="a run is 1-5 changes of coordinate system of a generated field (and of swaths, routes, strips, paths and points with it) between known and unknown systems, each repeated with failing lookups, creations or point conversions, or one whole plan of a field in longitudes and latitudes; non-trivial when a system was unknown or a fault fired",
    measure="hash of calls, systems and fault positions")
META["C13"] = dict(variant="tsan", technique="deterministic simulation: interleaved histories of random generators on simulated threads under simulated clock, entropy and memory layout, compared with each generator alone in a fresh process; happens-before race detection in each run",
    assumptions=["the C++ library's own engine and distributions are the same build in both processes"],
    rule="a run is a history of 4-34 creations, copies, assignments and calls on up to 8 generators, with clock jumps, other users of randomness, memory shifts, locale changes, other planning work and other threads between them; non-trivial when something happened in between",
    measure="hash of actions, calls and disturbances")
META["C14"] = dict(variant="asan", technique="deterministic simulation: operations repeated with the same failing allocation, callback, geometry-engine call, coordinate service, file or solver; heap bytes and open files compared between repetitions",
    assumptions=COMMON + ["what is kept once, or no longer grows when the same is repeated (tables of the library, GDAL, PROJ), is not lost"],
    rule="a run is one operation of the catalogue, or one save, load or import of a healthy or damaged file, on new objects each time or on those of before, repeated 6 times with each of 1-3 drawn failures; non-trivial when a failure fired",
    measure="hash of operations, failure kinds and whether they threw")
META["C12"] = dict(variant="asan", technique="deterministic simulation: interleaved histories of changes to several objects with failing allocations, refinement against plain C++ values",
    assumptions=COMMON + ["plain copies of geometry share it by design; the harness only keeps copies that the library clones"],
    rule="a run is a history of 5-44 changes (append, replace, scale, move, reverse, sort, reorder, user loops, clones, parts of an object given to itself) on up to 4 objects per type of one family, each call with an allocation failing or not, followed by a comparison of every object and of its queries with the model; non-trivial when a call failed",
    measure="hash of the sequence of calls")
META["C10"] = dict(variant="asan", technique="deterministic simulation: seeded histories of turns, settings, robots and planner copies with failing curve planners and allocations, compared with a fresh planner without cache",
    assumptions=["the curve planner is a function of the robot's curvatures and turn speed, the discretisation, and the turn", "turns whose start heading lies along the line between their ends (where either side is right) are not requested"],
    rule="a run is a history of 3 to some hundreds of turns, direct cache requests, whole paths, setting changes and copies on 1-5 planners, requests drawn from a small pool of similar turns placed anywhere, with failing allocations and curve planners; non-trivial when a turn repeats an earlier one up to rounding or an attempt failed",
    measure="hash of the sequence of actions, failures and planner kinds")
META["C11"] = dict(variant="asan", technique="deterministic simulation: the routing solver replaced by a simulated one whose outcome (any valid tour, none, invalid arcs) the seed decides; routes checked against the harness's own account of swaths and headland lines",
    assumptions=["a solver solution visits every node once", "the swaths' ends and middles are distinct points, and the start point is not the middle of a swath (otherwise the planner may throw, and does not return a route that misses swaths)", "d_tol is far below the distance between swaths"],
    rule="a run is 1-3 route plannings of one planner over generated cells and swaths (synthetic and the library's own, on or off the border, bent, with holes, up to 14 swaths), with start points anywhere, on the border and at swath ends, with drawn solver outcomes and failing allocations, or one run of the whole pipeline; non-trivial when the solver failed, chose another than its first tour, or an allocation failed",
    measure="hash of swath counts, start, direction flag and solver outcomes")

TSAN = ["third-party libraries (GDAL, GEOS, PROJ) are thread-safe on distinct objects; their own accesses are neither preempted nor checked, except writes to protected inputs",
        "interleavings are sequentially consistent; unordered conflicting accesses are reported whatever order the run took"]
META["C01"] = dict(variant="tsan", technique="deterministic simulation: parallel algorithms on simulated threads with seeded partitions and preemption at memory accesses, compared with a one-at-a-time scan; happens-before race detection in each run",
    assumptions=TSAN + ["the cells give at least one swath at every candidate angle", "a user objective does not throw (a parallel algorithm would end the program)"],
    rule="a run is 1-3 searches by 1 or 2 users at the same time, over generated cells, widths, steps (0-360 candidates), the 5 library objectives and 6 user ones, on drawn partitions, threads and preemptions, the cells in read-only memory; non-trivial when threads were preempted or handed over",
    measure="hash of (access count, thread) at every switch")
META["C02"] = dict(variant="tsan", technique="deterministic simulation: planning jobs interleaved on simulated threads with seeded preemption at memory accesses, and in sequence, each compared with itself alone in a fresh process; happens-before race detection in each run",
    assumptions=TSAN + ["the character-facet tables of libstdc++ (filled without locks by any use of <regex>) are not the library's memory"],
    rule="a run is 1-12 jobs of the catalogue (95 operations), alike or differing in one or two inputs, each on objects of its own, on 1-4 threads; non-trivial when threads were preempted, or several jobs ran one after another",
    measure="hash of operations and of (access count, thread) at every switch")
META["C03"] = dict(variant="tsan", technique="deterministic simulation: operations of several simulated threads on shared inputs kept in read-only memory while clones change, with seeded preemption, compared with each operation alone; happens-before race detection in each run",
    assumptions=TSAN + ["atomic reference counts of shared handles may change"],
    rule="a run is 1-12 operations of the catalogue on 1-4 threads sharing one generated world in write-protected memory, and 0-2 threads changing clones of all of it; non-trivial when threads were preempted or clones changed",
    measure="hash of operations and of (access count, thread) at every switch")
