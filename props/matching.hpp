// Reference for the scan matcher, and generators of places and scans
#pragma once
#include "common.hpp"
#include <memory>
#include <ndt_2d/ndt_model.hpp>
#include <ndt_2d/scan_matcher_ndt.hpp>

namespace matching
{
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
typedef std::vector<ScanPtr> Scans;
typedef std::vector<Point> Points;

struct Parameters
{
  double resolution = 0.25, angular_res = 0.0025, angular_size = 0.1, linear_res = 0.005, linear_size = 0.05, range = 5;
  int beams = 100;
  std::string show() const
  {
    std::ostringstream o;
    o << "resolution " << resolution << " range " << range << " window " << linear_size << "/" << linear_res << " " << angular_size << "/" << angular_res << " beams " << beams;
    return o.str();
  }
};
inline std::shared_ptr<ndt_2d::ScanMatcherNDT> make(const Parameters & p)
{
  rclcpp::NodeOptions o;
  o.set("m.ndt_resolution", p.resolution).set("m.search_angular_resolution", p.angular_res).set("m.search_angular_size", p.angular_size)
  .set("m.search_linear_resolution", p.linear_res).set("m.search_linear_size", p.linear_size).set("m.laser_max_beams", p.beams);
  auto node = std::make_shared<rclcpp::Node>("n", o);
  auto m = std::make_shared<ndt_2d::ScanMatcherNDT>();
  m->initialize("m", node.get(), p.range);
  return m;
}

// The points a scan of n points is matched with. False: depends on rounding
inline bool used_points(const Points & pts, int beams, Points & out)
{
  out.clear();
  size_t n = pts.size(), m = std::min<size_t>(n, static_cast<size_t>(std::max(0, beams)));
  if (!m) return true;
  double step = static_cast<double>(n) / m;
  bool exact = true;
  for (size_t i = 0; i < m; ++i)
  {
    size_t a = static_cast<size_t>(i * step), b = i * n / m;
    exact = exact && a == b;
    out.push_back(pts[a]);
  }
  return exact;
}

// A map of scans with cells from the lower left corner of their sensor ranges
struct Map
{
  typedef std::pair<int64_t, int64_t> Index;
  double x = 0, y = 0, cell = 1;
  std::map<Index, ndt_2d::Cell> cells;
  bool unsure = false;             // a point of the map is on a border
  Map() {}
  Map(const Scans & scans, const Parameters & p) : cell(p.resolution)
  {
    if (scans.empty()) return;
    x = y = 1e300;
    for (auto & s : scans)
    {
      x = std::min(x, s->getPose().x - p.range);
      y = std::min(y, s->getPose().y - p.range);
    }
    for (auto & s : scans)
    {
      Pose2d q = s->getPose();
      double cs = cos(q.theta), sn = sin(q.theta);
      for (auto & k : s->getPoints())
      {
        Eigen::Vector2d v(q.x + k.x * cs - k.y * sn, q.y + k.x * sn + k.y * cs);
        Index i;
        unsure = !index(v, i) || unsure;
        cells[i].addPoint(v);
      }
    }
    for (auto & c : cells) c.second.compute();
  }
  bool index(const Eigen::Vector2d & v, Index & i) const
  {
    double fx = (v(0) - x) / cell, fy = (v(1) - y) / cell, gx = std::floor(fx), gy = std::floor(fy);
    i = Index(static_cast<int64_t>(gx), static_cast<int64_t>(gy));
    double t = 1e-9 * (1 + 1e-3 * (std::fabs(x) + std::fabs(y)) / cell);
    return fx - gx > t && fx - gx < 1 - t && fy - gy > t && fy - gy < 1 - t;
  }
  // Sum of likelihoods of points at a pose; slack: what points on borders may add or take
  double sum(const Points & pts, const Pose2d & q, double & slack)
  {
    double cs = cos(q.theta), sn = sin(q.theta), s = 0;
    slack = 1e-9 * static_cast<double>(pts.size() + 1);
    for (auto & k : pts)
    {
      Eigen::Vector2d v(q.x + k.x * cs - k.y * sn, q.y + k.x * sn + k.y * cs);
      Index i;
      if (!index(v, i)) slack += 1;
      auto it = cells.find(i);
      if (it == cells.end()) continue;
      double one = it->second.score(v);
      s += one;
      if (it->second.n < 5) continue;
      // rounding of positions and covariance, amplified by a sharp cell
      auto & cv = it->second.covariance;
      double h = (cv(0, 0) + cv(1, 1)) / 2, r = std::hypot((cv(0, 0) - cv(1, 1)) / 2, cv(0, 1)), large = h + r, small = std::max(h - r, 1e-3 * large);
      double far = std::max(std::fabs(v(0)), std::fabs(v(1))), ct = 3e-16 * (10 + it->second.n) * far * far;
      if (std::fabs(large - 1e-8) <= 4 * ct) { slack += 1; continue; }
      if (large > 1e-8) slack += std::min(1.0, 10 * ct / small);
      double sharp = std::sqrt(std::max(it->second.information(0, 0), it->second.information(1, 1)));
      slack += 1e-14 * (1 + std::fabs(q.x) + std::fabs(q.y) + 10) * sharp;
    }
    return s;
  }
};

// Walls and boxes around a place
struct Place
{
  double x = 0, y = 0;
  std::vector<Eigen::Vector2d> points;
};
inline Place place(pbt::Case & c, double far, double size)
{
  Place w;
  w.x = far * c.real(-1, 1);
  w.y = far * c.real(-1, 1);
  if (c.chance(25)) w.x = w.y = 0;
  size_t walls = 1 + c.below(4);
  for (size_t k = 0; k < walls; ++k)
  {
    double a = c.real(-M_PI, M_PI), d = size * c.real(0.1, 1), t = c.real(-M_PI, M_PI), l = size * c.real(0.05, 1), rough = c.pick(std::vector<double>{0.02, 0.0, 0.005, 0.1});
    if (c.chance(40)) t = a + M_PI / 2;
    size_t n = 8 + c.below(60);
    for (size_t i = 0; i < n; ++i)
    {
      double u = l * c.real(-1, 1), v = rough * c.real(-1, 1);
      w.points.emplace_back(w.x + d * cos(a) + u * cos(t) - v * sin(t), w.y + d * sin(a) + u * sin(t) + v * cos(t));
    }
  }
  return w;
}
// What a robot at `pose` sees of it: some of the points within range, with noise
inline Points view(pbt::Case & c, const Place & w, const Pose2d & pose, double range, size_t most)
{
  Points out;
  double cs = cos(pose.theta), sn = sin(pose.theta), noise = c.pick(std::vector<double>{0.01, 0.003, 0.03});
  size_t start = w.points.empty() ? 0 : c.below(w.points.size()), step = 1 + c.below(3);
  for (size_t k = 0; k * step < w.points.size() && out.size() < most; ++k)
  {
    auto & q = w.points[(start + k * step) % w.points.size()];
    double dx = q(0) - pose.x + noise * c.real(-1, 1), dy = q(1) - pose.y + noise * c.real(-1, 1);
    if (std::hypot(dx, dy) > 0.98 * range) continue;
    out.emplace_back(cs * dx + sn * dy, -sn * dx + cs * dy);
  }
  return out;
}
// As much as a fine laser does
inline Points fine_view(pbt::Case & c, const Place & w, const Pose2d & pose, double range)
{
  Points out;
  size_t n = 300 + c.below(4000);
  while (out.size() < n)
  {
    auto v = view(c, w, pose, range, n - out.size());
    if (v.empty()) break;
    out.insert(out.end(), v.begin(), v.end());
  }
  return out;
}
inline ScanPtr scan(size_t id, const Pose2d & p, const Points & pts)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(p);
  s->setPoints(pts);
  return s;
}

inline Parameters parameters(pbt::Case & c)
{
  Parameters p;
  p.resolution = c.pick(std::vector<double>{0.25, 0.5, 1.0, 0.1});
  p.range = c.pick(std::vector<double>{5, 3, 8.5});
  if (p.resolution < 0.2) p.range = 3;
  // windows of up to 9 steps, mostly no whole number of them
  auto window = [&](double & res, double & size, double smallest) {
      res = smallest * c.pick(std::vector<double>{1, 2, 5, 10, 20});
      double steps = 0.5 * static_cast<double>(1 + c.below(8)) + (c.chance(85) ? 0.5 * c.real(0.05, 0.95) : 0.0);
      size = res * steps;
    };
  window(p.linear_res, p.linear_size, 0.005);
  window(p.angular_res, p.angular_size, 0.0025);
  p.beams = c.chance(50) ? 100 : 1 + static_cast<int>(c.below(30));
  return p;
}
inline Scans map_scans(pbt::Case & c, const Place & w, double range, double spread)
{
  Scans s;
  for (size_t i = 0, n = 1 + c.below(5); i < n; ++i)
  {
    Pose2d p(w.x + spread * c.real(-1, 1), w.y + spread * c.real(-1, 1), c.angle());
    s.push_back(scan(i, p, c.rare(300) ? fine_view(c, w, p, range) : view(c, w, p, range, 150)));
  }
  return s;
}
// Steps of a window: -size, -size + res, ... below size; sure: the last one does not depend on rounding
inline std::vector<double> steps(double size, double res, bool & sure)
{
  std::vector<double> v;
  double n = 2 * size / res;
  sure = std::fabs(n - std::round(n)) > 1e-6;
  for (size_t k = 0; k < (sure ? std::ceil(n) : std::round(n)); ++k) v.push_back(-size + static_cast<double>(k) * res);
  return v;
}
struct Frozen
{
  Pose2d pose;
  Points points;
  explicit Frozen(const ScanPtr & s) : pose(s->getPose()), points(s->getPoints()) {}
  void check(const ScanPtr & s) const
  {
    auto p = s->getPose();
    auto q = s->getPoints();
    CHECK(p.x == pose.x && p.y == pose.y && p.theta == pose.theta, "the scan was moved");
    CHECK(q.size() == points.size(), "the points of the scan changed");
    for (size_t i = 0; i < q.size(); ++i) CHECK(q[i].x == points[i].x && q[i].y == points[i].y, "the points of the scan changed");
  }
};
}  // namespace matching
