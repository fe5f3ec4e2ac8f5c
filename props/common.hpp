// Helpers shared by the checks: reference statistics and generators of points and poses.
#pragma once
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <pbt.hpp>
#include <ndt_2d/point.hpp>
#include <ndt_2d/pose_2d.hpp>
#include <ndt_2d/scan.hpp>

namespace ref
{
typedef long double real;
const double kEps = 2.3e-16;

inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }

// Two-pass statistics of a list of points
struct Stats
{
  size_t n = 0;
  real mx = 0, my = 0, xx = 0, xy = 0, yy = 0;   // covariance with divisor n - 1
  double biggest = 0;                             // largest |coordinate|
  // eigenvalues and the direction of the larger one
  real small = 0, large = 0, ax = 1, ay = 0;
};
inline void eigen(real xx, real xy, real yy, real & small, real & large, real & ax, real & ay)
{
  real h = (xx + yy) / 2, d = (xx - yy) / 2, r = sqrtl(d * d + xy * xy);
  large = h + r;
  small = h - r;
  real t = 0.5L * atan2l(2 * xy, xx - yy);
  ax = cosl(t);
  ay = sinl(t);
}
inline Stats stats(const std::vector<Eigen::Vector2d> & p)
{
  Stats s;
  s.n = p.size();
  for (auto & q : p)
  {
    s.mx += q(0);
    s.my += q(1);
    s.biggest = std::max({s.biggest, std::fabs(q(0)), std::fabs(q(1))});
  }
  if (s.n) { s.mx /= s.n; s.my /= s.n; }
  for (auto & q : p)
  {
    s.xx += (q(0) - s.mx) * (q(0) - s.mx);
    s.xy += (q(0) - s.mx) * (q(1) - s.my);
    s.yy += (q(1) - s.my) * (q(1) - s.my);
  }
  if (s.n > 1) { s.xx /= s.n - 1; s.xy /= s.n - 1; s.yy /= s.n - 1; }
  eigen(s.xx, s.xy, s.yy, s.small, s.large, s.ax, s.ay);
  return s;
}
// Rounding allowed in the running covariance of n points with coordinates up to m
inline double cov_tol(size_t n, double m) { return 1e-15 * (20.0 + n) * (m * m) + 1e-18; }

// Reference likelihood of q under the points of a cell, where it is well determined.
// False: degenerate or near the regularisation limit (then only the range is known).
inline bool likelihood(const Stats & s, const Eigen::Vector2d & q, double & value, double & tol)
{
  value = 0;
  tol = 0;
  if (s.n < 5) return true;
  double ct = cov_tol(s.n, s.biggest);
  if (s.large < 1e-6L || ct > 1e-7L * s.large) return false;
  real dx = q(0) - s.mx, dy = q(1) - s.my;
  real u = dx * s.ax + dy * s.ay, v = -dx * s.ay + dy * s.ax;   // along the wide and the narrow axis
  real e;
  if (s.small > 0.00101L * s.large)
  {
    e = u * u / s.large + v * v / s.small;
    if (ct > 1e-7L * s.small) return false;
  }
  else return false;
  value = static_cast<double>(expl(-0.5L * e));
  // relative error of the covariance, seen through the exponent
  double rel = ct / static_cast<double>(s.small) * 4 + 1e-10;
  double dm = 1e-15 * (20.0 + s.n) * s.biggest * std::sqrt(1.0 / static_cast<double>(s.small));
  tol = std::min(1.0, static_cast<double>(e) * value * rel + dm * 2 + 1e-10);
  return true;
}
}  // namespace ref

namespace gen
{
inline ndt_2d::Pose2d pose(pbt::Case & c, double m)
{
  ndt_2d::Pose2d p;
  p.x = c.coord(m);
  p.y = c.coord(m);
  p.theta = c.angle();
  return p;
}
inline std::string show(const ndt_2d::Pose2d & p)
{
  return "(" + pbt::shortstr(p.x) + " " + pbt::shortstr(p.y) + " " + pbt::shortstr(p.theta) + ")";
}

// A cluster of n points: around a centre within m, of any spread and shape, degenerate ones too
struct Cluster
{
  std::vector<Eigen::Vector2d> points;
  std::string kind;
};
inline Cluster cluster(pbt::Case & c, size_t n, double m)
{
  Cluster k;
  static const std::vector<double> spreads = {0.1, 0.25, 0.02, 1.0, 0.005, 3.0};
  static const std::vector<double> aspects = {0.5, 1.0, 0.2, 0.05, 0.035, 0.03, 0.01, 0.001, 0.0};
  double cx = c.coord(m), cy = c.coord(m), s = c.pick(spreads);
  switch (c.weighted({10, 2, 2, 2}))
  {
    case 0:
      {
        k.kind = "blob";
        double a = c.pick(aspects), t = c.angle();
        for (size_t i = 0; i < n; ++i)
        {
          double u = s * c.real(-1, 1), v = s * a * c.real(-1, 1);
          k.points.emplace_back(cx + u * cos(t) - v * sin(t), cy + u * sin(t) + v * cos(t));
        }
        break;
      }
    case 1:
      k.kind = "coincident";
      for (size_t i = 0; i < n; ++i) k.points.emplace_back(cx, cy);
      break;
    case 2:
      {
        k.kind = "axis line";
        bool vertical = c.chance(50);
        for (size_t i = 0; i < n; ++i)
        {
          double u = s * (static_cast<double>(c.below(41)) / 20 - 1);
          k.points.emplace_back(vertical ? cx : cx + u, vertical ? cy + u : cy);
        }
        break;
      }
    default:
      k.kind = "lattice";
      for (size_t i = 0; i < n; ++i)
      {
        double u = 0.05 * static_cast<double>(c.below(5)), v = 0.05 * static_cast<double>(c.below(5));
        k.points.emplace_back(cx + u, cy + v);
      }
  }
  return k;
}
}  // namespace gen
