// C01, C02: statistics and scores of one map cell
#include "common.hpp"
#include <ndt_2d/ndt_model.hpp>
using ndt_2d::Cell;
using pbt::Case;

namespace
{
size_t count(Case & c)
{
  switch (c.weighted({6, 5, 2, 1}))
  {
    case 0: return c.below(8);
    case 1: return c.below(40);
    case 2: return c.below(300);
    default: return 300 + c.below(2200);
  }
}

void check_count_mean(const Cell & cell, const std::vector<Eigen::Vector2d> & p)
{
  auto s = ref::stats(p);
  CHECK_NEAR(cell.n, static_cast<double>(p.size()), 0, "point count");
  double tm = 1e-15 * (20.0 + s.n) * s.biggest + 1e-300;
  CHECK_NEAR(cell.mean(0), static_cast<double>(s.mx), tm, "mean x of " << p.size() << " points");
  CHECK_NEAR(cell.mean(1), static_cast<double>(s.my), tm, "mean y of " << p.size() << " points");
}

// ct: rounding allowed in the covariance
void check_information(const Cell & cell, double ct)
{
  const auto & C = cell.covariance;
  const auto & I = cell.information;
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) CHECK(std::isfinite(I(i, j)), "information not finite");
  ref::real small, large, ax, ay;
  ref::eigen(C(0, 0), C(0, 1), C(1, 1), small, large, ax, ay);
  double top = std::max({std::fabs(I(0, 0)), std::fabs(I(1, 1)), 1e-300});
  CHECK_NEAR(I(0, 1), I(1, 0), 1e-9 * top, "information not symmetric");
  // positive semidefinite
  ref::real is, il, bx, by;
  ref::eigen(I(0, 0), I(0, 1), I(1, 1), is, il, bx, by);
  CHECK(static_cast<double>(is) >= -1e-12 * static_cast<double>(il), "information not positive semidefinite: "
    << static_cast<double>(is) << " " << static_cast<double>(il));
  if (large < 1e-6L) return;   // points within a millimetre: any finite positive information
  if (small > 0.001001L * large)
  {
    Eigen::Matrix2d id = I * C;
    CHECK_NEAR(id(0, 0), 1, 1e-8, "information is not the inverse of the covariance");
    CHECK_NEAR(id(1, 1), 1, 1e-8, "information is not the inverse of the covariance");
    CHECK_NEAR(id(0, 1), 0, 1e-8 * 1000, "information is not the inverse of the covariance");
    CHECK_NEAR(id(1, 0), 0, 1e-8 * 1000, "information is not the inverse of the covariance");
  }
  else if (small < 0.000999L * large)
  {
    double l = static_cast<double>(large), nx = -static_cast<double>(ay), ny = static_cast<double>(ax);
    Eigen::Vector2d w(static_cast<double>(ax), static_cast<double>(ay)), v(nx, ny);
    double slack = 1e-5 + 4 * ct / l;
    double narrow = v.dot(I * v), wide = w.dot(I * w), cross = v.dot(I * w);
    CHECK_NEAR(narrow * 0.001 * l, 1, slack, "information across the narrow direction");
    CHECK(wide >= -1e-9 / l && wide * l <= 1 + 1e-5 + 4e3 * ct / l, "information along the wide direction: " << wide * l);
    CHECK_NEAR(cross * 0.001 * l, 0, slack, "information between wide and narrow direction");
  }
}
}  // namespace

PBT_TEST(C01, history, 200000, 8000000, "additions interleaved with recomputation; non-trivial: recomputed at least twice, "
         "with points added in between, at least 3 points")
{
  size_t n = count(c);
  double m = c.pick(std::vector<double>{5, 1, 50, 500, 5000});
  Cell cell;
  CHECK(cell.n == 0, "a new cell is not empty");
  auto k = gen::cluster(c, n, m);
  c.label(k.kind);
  if (c.chance(25) && !k.points.empty())
  {
    // a second cluster in the same cell
    auto k2 = gen::cluster(c, c.below(20), 1);
    for (auto & q : k2.points) k.points.push_back(q + k.points[0]);
  }
  std::vector<Eigen::Vector2d> added;
  size_t computes = 0;
  unsigned density = static_cast<unsigned>(c.pick(std::vector<int>{0, 50, 10, 3}));
  c.note << k.kind << " n=" << k.points.size() << " first "
         << (k.points.empty() ? 0 : k.points[0](0)) << "," << (k.points.empty() ? 0 : k.points[0](1))
         << " recompute density " << density << "%";
  auto recompute = [&]
    {
      auto before = cell;
      cell.compute();
      check_count_mean(cell, added);
      if (added.size() >= 3)
      {
        ++computes;
        auto s = ref::stats(added);
        double t = ref::cov_tol(s.n, s.biggest);
        CHECK_NEAR(cell.covariance(0, 0), static_cast<double>(s.xx), t, "covariance xx of " << s.n << " points");
        CHECK_NEAR(cell.covariance(0, 1), static_cast<double>(s.xy), t, "covariance xy of " << s.n << " points");
        CHECK_NEAR(cell.covariance(1, 0), static_cast<double>(s.xy), t, "covariance yx of " << s.n << " points");
        CHECK_NEAR(cell.covariance(1, 1), static_cast<double>(s.yy), t, "covariance yy of " << s.n << " points");
        check_information(cell, t);
        if (s.large > 1e-6L && s.small < 0.001L * s.large) c.label("regularised");
        if (s.large < 1e-6L) c.label("degenerate");
      }
      auto once = cell;
      size_t again = 1 + c.below(2);
      for (size_t i = 0; i < again; ++i) cell.compute();
      CHECK(once.n == cell.n && once.mean == cell.mean && once.covariance == cell.covariance &&
            once.information == cell.information, "recomputing without new points changed the cell");
    };
  for (auto & p : k.points)
  {
    cell.addPoint(p);
    added.push_back(p);
    if (added.size() > 400 ? c.below(400) == 0 : c.chance(density)) recompute();
  }
  recompute();
  if (computes >= 2 && added.size() >= 3) c.nontrivial();
  if (added.size() > 500) c.label("more than 500 points");
}

PBT_TEST(C01, order, 200000, 8000000, "the same points added in two orders, one cell recomputed in the middle; non-trivial: at least 5 points")
{
  size_t n = count(c) % 200;
  auto k = gen::cluster(c, n, c.pick(std::vector<double>{5, 50, 500}));
  auto shuffled = k.points;
  for (size_t i = shuffled.size(); i > 1; --i) std::swap(shuffled[i - 1], shuffled[i - 1 - c.below(i)]);
  Cell a, b;
  for (auto & p : k.points) a.addPoint(p);
  a.compute();
  size_t stop = c.below(n + 1);
  for (size_t i = 0; i < shuffled.size(); ++i)
  {
    if (i == stop) b.compute();
    b.addPoint(shuffled[i]);
  }
  b.compute();
  c.note << k.kind << " n=" << n << " recomputed after " << stop;
  auto s = ref::stats(k.points);
  double t = ref::cov_tol(s.n, s.biggest) * 2;
  CHECK(a.n == b.n, "count depends on the order");
  for (int i = 0; i < 2; ++i)
  {
    CHECK_NEAR(a.mean(i), b.mean(i), 1e-14 * (20.0 + n) * s.biggest, "mean depends on the order");
    for (int j = 0; j < 2; ++j) CHECK_NEAR(a.covariance(i, j), b.covariance(i, j), t, "covariance depends on the order");
  }
  check_information(a, t);
  check_information(b, t);
  if (n >= 5) c.nontrivial();
}

PBT_TEST(C02, score, 600000, 20000000, "a cell of 0 to thousands of points, recomputed, and 12 queries near and far; "
         "non-trivial: at least 5 points and a query with a score strictly between 0 and 1")
{
  size_t n = c.weighted({3, 2}) ? count(c) : 3 + c.below(5);
  double m = c.pick(std::vector<double>{5, 1, 50, 500});
  auto k = gen::cluster(c, n, m);
  c.label(k.kind);
  Cell cell;
  size_t half = c.below(n + 1);
  for (size_t i = 0; i < n; ++i)
  {
    cell.addPoint(k.points[i]);
    if (i == half) cell.compute();
  }
  cell.compute();
  auto s = ref::stats(k.points);
  if (n < 5) c.label("fewer than 5 points");
  c.note << k.kind << " n=" << n << " eigenvalues " << static_cast<double>(s.small) << " " << static_cast<double>(s.large);
  if (n >= 5)
  {
    CHECK_NEAR(cell.score(cell.mean), 1.0, 1e-12, "score at the mean");
  }
  bool interesting = false;
  for (int q = 0; q < 12; ++q)
  {
    Eigen::Vector2d x;
    double scale = std::sqrt(static_cast<double>(s.large) > 0 ? static_cast<double>(s.large) : 1e-4);
    switch (c.weighted({4, 3, 1, 1, 1}))
    {
      case 0: { double r = scale * c.real(0, 4), t = c.angle(); x = cell.mean + r * Eigen::Vector2d(cos(t), sin(t)); break; }
      case 1:
        {
          // near in the sense of the narrow direction
          double sm = std::sqrt(std::max(static_cast<double>(s.small), 0.001 * static_cast<double>(s.large)));
          double u = scale * c.real(-3, 3), v = sm * c.real(-3, 3);
          double ax = static_cast<double>(s.ax), ay = static_cast<double>(s.ay);
          x = cell.mean + Eigen::Vector2d(u * ax - v * ay, u * ay + v * ax);
          break;
        }
      case 2: x = Eigen::Vector2d(c.coord(1e4), c.coord(1e4)); break;
      case 3: x = Eigen::Vector2d(c.coord(1e7), c.coord(1e7)); break;
      default: x = n ? k.points[c.below(n)] : Eigen::Vector2d(0, 0);
    }
    double v = cell.score(x);
    CHECK(std::isfinite(v) && v >= 0 && v <= 1 + 1e-12, "score " << v << " of (" << x(0) << ", " << x(1) << ") with " << n << " points");
    if (n < 5) { CHECK(v == 0, "score " << v << " with " << n << " points"); continue; }
    Eigen::Vector2d d = x - cell.mean;
    double e = d.dot(cell.information * d);
    double size = cell.information.cwiseAbs().maxCoeff() * d.squaredNorm();
    CHECK_NEAR(v, std::exp(-0.5 * std::max(e, 0.0)), 1e-10 + 1e-14 * size, "score is not exp(-d^2/2)");
    double want, tol;
    if (ref::likelihood(s, x, want, tol))
    {
      CHECK_NEAR(v, want, tol, "score differs from the Gaussian of the points");
      c.label("compared with the reference Gaussian");
    }
    // symmetric about the mean, not increasing along a ray
    Eigen::Vector2d mirror = cell.mean - d;
    CHECK_NEAR(cell.score(mirror), v, 1e-9 + 1e-12 * size + 1e-15 * s.biggest * std::sqrt(size) * 1e3, "score not symmetric about the mean");
    double f = c.real(0, 1);
    CHECK(cell.score(cell.mean + f * d) >= v - 1e-9 - 1e-12 * size, "score increases moving away from the mean");
    if (v > 1e-6 && v < 1 - 1e-6) interesting = true;
  }
  if (interesting) c.nontrivial();
}
