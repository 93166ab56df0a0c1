#pragma once
#include <cmath>
#include <vector>
namespace steer_stub {
inline double mod2pi(double a) { a = std::fmod(a, 2 * M_PI); return a < 0 ? a + 2 * M_PI : a; }
// Shortest Dubins word between two poses for curvature kappa.
struct Seg { int turn; double len; };  // +1 left, -1 right, 0 straight
inline std::vector<Seg> dubins(double x0, double y0, double t0, double x1, double y1, double t1, double kappa) {
  double dx = x1 - x0, dy = y1 - y0, D = std::hypot(dx, dy) * kappa;
  double th = std::atan2(dy, dx), a = mod2pi(t0 - th), b = mod2pi(t1 - th);
  double sa = std::sin(a), sb = std::sin(b), ca = std::cos(a), cb = std::cos(b), cab = std::cos(a - b);
  double best = 1e300; std::vector<Seg> res;
  auto take = [&](int A, int B, int C, double t, double p, double q) {
    if (t + p + q < best) { best = t + p + q; res = {{A, t / kappa}, {B, p / kappa}, {C, q / kappa}}; }
  };
  double v = 2 + D * D - 2 * cab + 2 * D * (sa - sb);
  if (v >= 0) { double t1_ = std::atan2(cb - ca, D + sa - sb); take(1, 0, 1, mod2pi(-a + t1_), std::sqrt(v), mod2pi(b - t1_)); }
  v = 2 + D * D - 2 * cab + 2 * D * (sb - sa);
  if (v >= 0) { double t1_ = std::atan2(ca - cb, D - sa + sb); take(-1, 0, -1, mod2pi(a - t1_), std::sqrt(v), mod2pi(-b + t1_)); }
  v = -2 + D * D + 2 * cab + 2 * D * (sa + sb);
  if (v >= 0) { double p = std::sqrt(v); double t1_ = std::atan2(-ca - cb, D + sa + sb) - std::atan2(-2., p); take(1, 0, -1, mod2pi(-a + t1_), p, mod2pi(-mod2pi(b) + t1_)); }
  v = D * D - 2 + 2 * cab - 2 * D * (sa + sb);
  if (v >= 0) { double p = std::sqrt(v); double t1_ = std::atan2(ca + cb, D - sa - sb) - std::atan2(2., p); take(-1, 0, 1, mod2pi(a - t1_), p, mod2pi(b - t1_)); }
  v = (6 - D * D + 2 * cab + 2 * D * (sa - sb)) / 8;
  if (std::fabs(v) <= 1) { double p = mod2pi(2 * M_PI - std::acos(v)); double t = mod2pi(a - std::atan2(ca - cb, D - sa + sb) + p / 2); take(-1, 1, -1, t, p, mod2pi(a - b - t + p)); }
  v = (6 - D * D + 2 * cab + 2 * D * (sb - sa)) / 8;
  if (std::fabs(v) <= 1) { double p = mod2pi(2 * M_PI - std::acos(v)); double t = mod2pi(-a + std::atan2(-ca + cb, D + sa - sb) + p / 2); take(1, -1, 1, t, p, mod2pi(mod2pi(b) - a - t + p)); }
  return res;
}
class Space {
 public:
  Space(double kappa, double disc) : kappa_(kappa), disc_(disc > 1e-4 ? disc : 1e-4) {}
  std::vector<steer::Control> get_controls(const steer::State& a, const steer::State& b) const {
    std::vector<steer::Control> c;
    for (auto& s : dubins(a.x, a.y, a.theta, b.x, b.y, b.theta, kappa_))
      c.push_back({s.len, s.turn * kappa_, 0.0});
    return c;
  }
  std::vector<steer::State> get_path(const steer::State& a, const steer::State& b) const {
    std::vector<steer::State> path;
    steer::State s = a;
    s.theta = a.theta; s.d = 1;
    path.push_back(s);
    for (auto& c : get_controls(a, b)) {
      double done = 0;
      while (c.delta_s - done > 1e-9) {
        double h = std::fmin(disc_, c.delta_s - done);
        double th = s.theta + 0.5 * c.kappa * h;
        double chord = c.kappa == 0 ? h : 2 * std::sin(0.5 * c.kappa * h) / c.kappa;
        s.x += chord * std::cos(th); s.y += chord * std::sin(th);
        s.theta = mod2pi(s.theta + c.kappa * h);
        s.kappa = c.kappa; s.d = 1;
        done += h;
        path.push_back(s);
      }
    }
    return path;
  }
 private:
  double kappa_, disc_;
};
}  // namespace steer_stub
class Dubins_State_Space : public steer_stub::Space {
 public: Dubins_State_Space(double k, double d, bool) : Space(k, d) {} };
class CC00_Dubins_State_Space : public steer_stub::Space {
 public: CC00_Dubins_State_Space(double k, double, double d, bool) : Space(k, d) {} };
class CC_Dubins_State_Space : public steer_stub::Space {
 public: CC_Dubins_State_Space(double k, double, double d, bool) : Space(k, d) {} };
class Reeds_Shepp_State_Space : public steer_stub::Space {
 public: Reeds_Shepp_State_Space(double k, double d) : Space(k, d) {} };
class HC00_Reeds_Shepp_State_Space : public steer_stub::Space {
 public: HC00_Reeds_Shepp_State_Space(double k, double, double d) : Space(k, d) {} };
