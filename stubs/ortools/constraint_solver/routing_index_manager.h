#pragma once
#include "ortools/constraint_solver/routing.h"
