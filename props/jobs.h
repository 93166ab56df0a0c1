// A job: an operation of the catalogue with all its inputs.
#pragma once
#include "ops.h"
struct Job {
  sim::Params world, op;
  const Op* what {nullptr};
};
// Uniform over the catalogue entries accepted by `want`; heavy ones are rarer.
Job drawJob(bool (*want)(const Op&), uint32_t heavy_one_in = 4);
const Op* drawOp(bool (*want)(const Op&), uint32_t heavy_one_in = 4);
// The job alone in a fresh process: its result, and how many allocations,
// callbacks and geometry-engine calls it made.
struct Reference { std::string result; uint64_t allocs {0}, callbacks {0}, geos {0}; std::string world; };
std::string encode(const Reference& r);
Reference decode(const std::string& s);
