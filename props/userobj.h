// Objectives a user might supply; all may be used by several threads at once.
#pragma once
#include <memory>
#include "fields2cover.h"
constexpr uint32_t kObjectives = 11;
std::unique_ptr<f2c::obj::SGObjective> makeObjective(uint32_t k);
const char* objectiveName(uint32_t k);
