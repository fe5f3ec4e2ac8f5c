// C06: constraints between two scans
#include "common.hpp"
#include <ndt_2d/constraint.hpp>
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using pbt::Case;

namespace
{
// A positive definite matrix with eigenvalues 10^[lo, hi], correlated or not; cond: their ratio
Eigen::Matrix3d spd(Case & c, double lo, double hi, double & cond)
{
  Eigen::Vector3d d;
  for (int i = 0; i < 3; ++i) d(i) = std::pow(10.0, c.real(lo, hi));
  cond = d.maxCoeff() / d.minCoeff();
  if (c.below(3) == 0) return d.asDiagonal();
  Eigen::Quaterniond q(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1) + 1e-3);
  q.normalize();
  Eigen::Matrix3d r = q.toRotationMatrix();
  Eigen::Matrix3d m = r * d.asDiagonal() * r.transpose();
  return (m + m.transpose()) / 2;
}
ndt_2d::ScanPtr scan(Case & c, size_t id, const Pose2d & p)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(p);
  std::vector<Point> pts;
  for (size_t k = 0, n = c.below(4); k < n; ++k) pts.emplace_back(c.coord(10), c.coord(10));
  s->setPoints(pts);
  return s;
}
}  // namespace

PBT_TEST(C06, relative, 300000, 10000000, "two scans at any poses with any ids and points, any covariance of condition up to 1e5; the pair also moved rigidly; "
         "non-trivial: both headings and both offsets non-zero, correlated covariance")
{
  double m = c.pick(std::vector<double>{10, 1, 1000});
  Pose2d a = gen::pose(c, m), b = gen::pose(c, m);
  if (c.chance(10)) b = a;
  size_t ia = c.below(100), ib = c.below(100);
  if (c.chance(10)) ia = static_cast<size_t>(c.below(uint64_t(1) << 40));
  if (c.chance(10)) ib = static_cast<size_t>(c.below(uint64_t(1) << 40));
  double cond;
  Eigen::Matrix3d cov = spd(c, -3, 2, cond), cov_before = cov;
  auto sa = scan(c, ia, a), sb = scan(c, ib, b);
  auto pa = sa->getPoints().size(), pb = sb->getPoints().size();
  auto k = ndt_2d::makeConstraint(sa, sb, cov);
  c.note << "from " << ia << gen::show(a) << " to " << ib << gen::show(b) << " cond " << pbt::shortstr(cond);
  CHECK(k, "no constraint");
  CHECK(k->begin == ia && k->end == ib, "ids " << k->begin << " -> " << k->end << " instead of " << ia << " -> " << ib);
  CHECK(!k->switchable, "switchable");
  double tol = 1e-13 * (1 + m) * 10;
  // composing the first pose with the transform gives the second
  ref::real cs = cosl(a.theta), sn = sinl(a.theta);
  CHECK_NEAR(static_cast<double>(a.x + cs * k->transform(0) - sn * k->transform(1)), b.x, tol, "composition x");
  CHECK_NEAR(static_cast<double>(a.y + sn * k->transform(0) + cs * k->transform(1)), b.y, tol, "composition y");
  CHECK_NEAR(ref::wrap(a.theta + k->transform(2) - b.theta), 0, 1e-13, "composition heading");
  CHECK(std::fabs(k->transform(2)) < 30, "heading difference " << k->transform(2));
  // information: the inverse
  // (a 3x3 inverse by cofactors loses |cov|^3/det)
  double big = std::pow(cov.norm(), 3) / cov.determinant();
  Eigen::Matrix3d id = k->information * cov;
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) CHECK_NEAR(id(i, j), i == j ? 1 : 0, 1e-13 * (1 + big) * 10, "information * covariance at " << i << "," << j);
  CHECK(cov == cov_before, "the covariance was changed");
  auto same = [](const Pose2d & p, const Pose2d & q) {return p.x == q.x && p.y == q.y && p.theta == q.theta;};
  CHECK(same(sa->getPose(), a) && same(sb->getPose(), b) && sa->getPoints().size() == pa && sb->getPoints().size() == pb, "the scans were changed");
  CHECK(sa->getId() == ia && sb->getId() == ib, "the ids were changed");
  // rigid motion of both
  Pose2d t = gen::pose(c, 100);
  ref::real ct = cosl(t.theta), st = sinl(t.theta);
  auto moved = [&](const Pose2d & p) {
      return Pose2d(static_cast<double>(t.x + ct * p.x - st * p.y), static_cast<double>(t.y + st * p.x + ct * p.y), p.theta + t.theta);
    };
  sa->setPose(moved(a));
  sb->setPose(moved(b));
  auto k2 = ndt_2d::makeConstraint(sa, sb, cov);
  double tol2 = 1e-12 * (100 + m) * 10;
  CHECK_NEAR(k2->transform(0), k->transform(0), tol2, "transform x after a rigid motion");
  CHECK_NEAR(k2->transform(1), k->transform(1), tol2, "transform y after a rigid motion");
  CHECK_NEAR(ref::wrap(k2->transform(2) - k->transform(2)), 0, 1e-12, "transform heading after a rigid motion");
  CHECK(k2->information == k->information, "information after a rigid motion");
  // the earlier constraint does not follow the scans
  CHECK(k->begin == ia, "constraint changed");
  if (a.theta != 0 && b.theta != 0 && a.x != b.x && a.y != b.y && cov(0, 1) != 0) c.nontrivial();
}
