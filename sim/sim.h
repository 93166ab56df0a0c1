// Core of the deterministic simulator: choice streams, run control, event log,
// isolation of reference executions, violation reporting, minimisation, replay.
//
// One integer (the run seed, derived from VERIF_SEED, the property and the run
// number) decides everything: every choice of a run is drawn from one of three
// recorded streams. A replay file is those streams; an exhausted stream gives 0,
// which every user of the streams maps to its simplest case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sim {

enum Stream { OPS = 0, FAULT = 1, SCHED = 2, N_STREAMS = 3 };

// Uniform draw in [0, n) from a stream (0 when n < 2).
uint32_t draw(Stream s, uint32_t n);
inline bool chance(Stream s, uint32_t num, uint32_t den) {
  // 0 (the minimised value) means "no".
  return draw(s, den) >= den - num;
}
double real(Stream s, double lo, double hi, uint32_t steps = 1000);

// A block of pre-drawn integers: the input of one job. A job reads its inputs
// from here only, so that the same job can run in another process or again.
struct Params {
  std::vector<uint32_t> v;
  size_t i {0};
  uint32_t draw(uint32_t n) {
    uint32_t x = i < v.size() ? v[i] : 0;
    ++i;
    return n < 2 ? 0 : x % n;
  }
  double real(double lo, double hi, uint32_t steps = 1000) {
    return lo + (hi - lo) * draw(steps + 1) / steps;
  }
  bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
  void rewind() { i = 0; }
};
Params makeParams(size_t k);
// The same job with one input changed (a "sibling").
Params siblingOf(const Params& p);

// Event log. log() is part of the run's hash, note() only of the written trace.
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();

// Reports a violation and ends the run (process).
[[noreturn]] void violation(const std::string& cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
// An error of the harness itself (never a verdict).
[[noreturn]] void harnessError(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));

// Coverage: named counters ("fault.*": fired faults, "probe.*": conditions
// reached, "op.*": operations executed), state/interleaving signature.
void count(const char* name, uint64_t n = 1);
void sig(uint64_t x);
void sig(const std::string& s);
void nontrivial();
void simTime(double seconds);

// Runs f in a forked child of this (still pristine) process and returns what it
// returned. Throws std::runtime_error when the child crashed.
std::string isolated(const std::function<std::string()>& f);
bool inIsolated();
// Called in such a child, where a build has it.
__attribute__((weak)) void onIsolated();

uint64_t hashStr(const std::string& s);
std::string brief(const std::string& s, size_t n = 160);
// First position where two texts differ, with context.
std::string diff(const std::string& want, const std::string& got);

// Name for a file or directory of this process in the worker's private scratch
// directory; always of the same length for the same what.
std::string scratchName(const char* what);

}  // namespace sim

// Supplied by each property.
extern const char* const kProperty;
void propertyRun();
// Optional one-time preparation in the zygote (must not call Fields2Cover).
void propertyInit();
