// Stand-in for steering_functions' utilities (the library is not available
// offline): only what Fields2Cover uses.
#pragma once
#include <algorithm>
#include <cmath>
#include <numeric>
#include <vector>
using std::max;
using std::min;
// End of a clothoid arc by numeric integration.
inline void end_of_clothoid(double x_i, double y_i, double theta_i, double kappa_i,
    double sigma, double direction, double length,
    double* x_f, double* y_f, double* theta_f, double* kappa_f) {
  const int n = 200;
  double h = length / n, x = x_i, y = y_i;
  for (int i = 0; i < n; ++i) {
    double s = (i + 0.5) * h;
    double th = theta_i + direction * (kappa_i * s + 0.5 * sigma * s * s);
    x += direction * h * std::cos(th);
    y += direction * h * std::sin(th);
  }
  *x_f = x; *y_f = y;
  *theta_f = theta_i + direction * (kappa_i * length + 0.5 * sigma * length * length);
  *kappa_f = kappa_i + sigma * length;
}
