// Stand-in for steering_functions: a plain Dubins planner behind the same names.
#pragma once
#include <vector>
namespace steer {
struct State { double x, y, theta, kappa, d; };
struct Control { double delta_s, kappa, sigma; };
}
#include "steering_functions/utilities/utilities.hpp"
#include "steering_functions/stub_state_space.hpp"
