#pragma once
#include "steering_functions/steering_functions.hpp"
