// Simulated threads: real OS threads of which exactly one runs at a time. Which
// one, and for how many memory accesses, is drawn from the SCHED stream.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {
// Runs the jobs on one simulated thread each, interleaved, until all are done.
// From one of these jobs it may be called again (nested).
void runThreads(std::vector<std::function<void()>> jobs);
struct ThreadStats { uint64_t threads, switches, accesses, atomics, blocked, interleaving; };
ThreadStats threadStats();
// While one exists, its thread is the harness: neither preempted nor checked.
struct Quiet { Quiet(); ~Quiet(); };
// Accesses of harness code that stands for a user's (e.g. a counter).
void touch(const void* p, size_t n, bool write);

// Parallel algorithms of the C++ library (see sim/pstl): splits [0, n) into
// chunks, runs body(lo, hi) for each on simulated threads; 0 when not simulated.
void parallelChunks(size_t n, const std::function<void(size_t, size_t)>& body);
void parallelPair(const std::function<void()>& a, const std::function<void()>& b);
uint64_t parallelLoops();

// How the heap gives freed blocks out again: 0 as the C library does, 1 the newest of
// the same size first, 2 one of the newest few.
void recycleHeap(int mode, uint64_t seed);

// Memory of shared inputs: what the calling thread allocates between on and off
// lies in one region, which can then be made read-only. A write to it while it
// is read-only is a violation, whoever makes it (reference counts excepted).
void arenaOn();
void arenaOff();
void arenaProtect(const char* what);
void arenaRelease();
bool inArena(const void* p);
uint64_t arenaBytes();
}  // namespace sim
