// C07, C08, C09: pose graph optimisation
#include <ndt_2d/ceres_solver.hpp>
#include "common.hpp"
#include <ndt_2d/constraint.hpp>
using ndt_2d::Constraint;
using ndt_2d::ConstraintPtr;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using pbt::Case;

namespace
{
typedef std::vector<ScanPtr> Scans;
typedef std::vector<ConstraintPtr> Constraints;

Pose2d compose(const Pose2d & a, const Pose2d & b)
{
  double c = cos(a.theta), s = sin(a.theta);
  return Pose2d(a.x + c * b.x - s * b.y, a.y + s * b.x + c * b.y, a.theta + b.theta);
}
Pose2d relative(const Pose2d & a, const Pose2d & b)
{
  double c = cos(a.theta), s = sin(a.theta), dx = b.x - a.x, dy = b.y - a.y;
  return Pose2d(c * dx + s * dy, -s * dx + c * dy, b.theta - a.theta);
}

// Positive definite, usually correlated, eigenvalues in 10^[lo, hi]
Eigen::Matrix3d information(Case & c, double lo, double hi)
{
  Eigen::Vector3d d;
  for (int i = 0; i < 3; ++i) d(i) = std::pow(10.0, c.real(lo, hi));
  switch (c.weighted({4, 1, 1}))
  {
    case 1: return d.asDiagonal();
    case 2: return Eigen::Matrix3d::Identity() * d(0);
  }
  Eigen::Quaterniond q(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1), c.real(-1, 1) + 1e-3);
  q.normalize();
  Eigen::Matrix3d r = q.toRotationMatrix();
  Eigen::Matrix3d m = r * d.asDiagonal() * r.transpose();
  return (m + m.transpose()) / 2;
}

ConstraintPtr constraint(size_t a, size_t b, const Pose2d & t, const Eigen::Matrix3d & info, bool sw)
{
  auto k = std::make_shared<Constraint>();
  k->begin = a;
  k->end = b;
  k->transform = Eigen::Vector3d(t.x, t.y, t.theta);
  k->information = info;
  k->switchable = sw;
  return k;
}

ScanPtr make_scan(size_t id, const Pose2d & p, size_t points)
{
  auto s = std::make_shared<Scan>(id);
  s->setPose(p);
  std::vector<Point> pts;
  for (size_t i = 0; i < points; ++i) pts.emplace_back(i, 1);
  s->setPoints(pts);
  return s;
}

// True poses: a walk or scattered positions
std::vector<Pose2d> truth(Case & c, size_t n)
{
  std::vector<Pose2d> p;
  bool walk = c.chance(60);
  p.push_back(gen::pose(c, 20));
  for (size_t i = 1; i < n; ++i)
  {
    if (walk) p.push_back(compose(p.back(), Pose2d(c.real(0, 2), c.real(-0.5, 0.5), c.real(-1.2, 1.2))));
    else p.emplace_back(p[0].x + c.real(-10, 10), p[0].y + c.real(-10, 10), c.angle());
    // headings are kept in any range
    if (c.chance(50)) p.back().theta = ref::wrap(p.back().theta);
  }
  return p;
}

Pose2d noise(Case & c, double l, double a) { return Pose2d(l * c.real(-1, 1), l * c.real(-1, 1), a * c.real(-1, 1)); }

// Edges of a connected graph over [0, n)
std::vector<std::pair<size_t, size_t>> edges(Case & c, size_t n, size_t extra)
{
  std::vector<std::pair<size_t, size_t>> e;
  size_t far = c.pick(std::vector<size_t>{1, 3, 1000});
  for (size_t i = 1; i < n; ++i)
  {
    size_t j = i - 1 - c.below(std::min(far, i));
    if (c.chance(25)) e.emplace_back(i, j);
    else e.emplace_back(j, i);
  }
  for (size_t k = 0; k < extra && n > 1; ++k)
  {
    size_t a = c.below(n), b = c.below(n);
    if (a == b) b = (a + 1) % n;
    e.emplace_back(a, b);
    if (c.chance(15)) e.push_back(e[c.below(e.size())]);
  }
  return e;
}

Eigen::Vector3d residual(const Pose2d & a, const Pose2d & b, const Constraint & k)
{
  Pose2d r = relative(a, b);
  return Eigen::Vector3d(r.x - k.transform(0), r.y - k.transform(1), ref::wrap(r.theta - k.transform(2)));
}
double cost(const std::vector<Pose2d> & p, const Constraints & ks)
{
  double f = 0;
  for (auto & k : ks)
  {
    auto r = residual(p[k->begin], p[k->end], *k);
    f += r.dot(k->information * r);
  }
  return f;
}
std::vector<Pose2d> poses(const Scans & s)
{
  std::vector<Pose2d> p;
  for (auto & x : s) p.push_back(x->getPose());
  return p;
}

// The decrease of the cost one Gauss-Newton step predicts (first pose fixed), and the softest eigenvalue
void newton(const std::vector<Pose2d> & p, const Constraints & ks, double & decrease, double & soft)
{
  size_t n = 3 * p.size();
  Eigen::MatrixXd H = Eigen::MatrixXd::Zero(n, n);
  Eigen::VectorXd g = Eigen::VectorXd::Zero(n);
  for (auto & k : ks)
  {
    const Pose2d & a = p[k->begin];
    const Pose2d & b = p[k->end];
    double c = cos(a.theta), s = sin(a.theta), dx = b.x - a.x, dy = b.y - a.y;
    Eigen::Matrix<double, 3, 6> J;
    J << -c, -s, -s * dx + c * dy, c, s, 0,
         s, -c, -c * dx - s * dy, -s, c, 0,
         0, 0, -1, 0, 0, 1;
    auto r = residual(a, b, *k);
    Eigen::Matrix<double, 6, 6> h = J.transpose() * k->information * J;
    Eigen::Matrix<double, 6, 1> v = J.transpose() * k->information * r;
    size_t at[2] = {3 * k->begin, 3 * k->end};
    for (int i = 0; i < 2; ++i)
    {
      g.segment<3>(at[i]) += v.segment<3>(3 * i);
      for (int j = 0; j < 2; ++j) H.block<3, 3>(at[i], at[j]) += h.block<3, 3>(3 * i, 3 * j);
    }
  }
  Eigen::MatrixXd h = H.bottomRightCorner(n - 3, n - 3);
  Eigen::VectorXd q = g.tail(n - 3);
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(h);
  decrease = 0;
  soft = 1e300;
  Eigen::VectorXd y = es.eigenvectors().transpose() * q;
  for (Eigen::Index i = 0; i < y.size(); ++i)
  {
    double l = es.eigenvalues()(i);
    if (l <= 1e-9 * es.eigenvalues().maxCoeff()) continue;   // poses without constraints
    decrease += y(i) * y(i) / l;
    soft = std::min(soft, l);
  }
}

struct Frozen { size_t id; std::vector<Point> points; };
std::vector<Frozen> freeze(const Scans & s)
{
  std::vector<Frozen> f;
  for (auto & x : s) f.push_back({x->getId(), x->getPoints()});
  return f;
}
void check_frozen(const Scans & s, const std::vector<Frozen> & f, const Constraints & ks, const std::vector<Constraint> & before)
{
  CHECK(s.size() == f.size(), "number of scans changed");
  for (size_t i = 0; i < s.size(); ++i)
  {
    CHECK(s[i]->getId() == f[i].id, "id changed");
    auto p = s[i]->getPoints();
    CHECK(p.size() == f[i].points.size(), "points changed");
    for (size_t k = 0; k < p.size(); ++k) CHECK(p[k].x == f[i].points[k].x && p[k].y == f[i].points[k].y, "points changed");
  }
  for (size_t i = 0; i < ks.size(); ++i)
  {
    CHECK(ks[i]->begin == before[i].begin && ks[i]->end == before[i].end && ks[i]->transform == before[i].transform &&
          ks[i]->information == before[i].information && ks[i]->switchable == before[i].switchable, "constraint " << i << " changed");
  }
}
std::vector<Constraint> copy(const Constraints & ks)
{
  std::vector<Constraint> v;
  for (auto & k : ks) v.push_back(*k);
  return v;
}
bool same(const Pose2d & a, const Pose2d & b) { return a.x == b.x && a.y == b.y && a.theta == b.theta; }
size_t graph_size(Case & c, size_t large) { return c.rare(300) ? 40 + c.below(large) : c.weighted({12, 3}) ? 12 + c.below(30) : 2 + c.below(11); }
}  // namespace

PBT_TEST(C07, recover, 6000, 200000, "a connected graph of 2 to 41 (sometimes 500) poses with exact constraints, started from perturbed poses; "
         "non-trivial: at least 3 poses and a cycle or a constraint against index order")
{
  size_t n = graph_size(c, 500);
  auto t = truth(c, n);
  auto es = edges(c, n, c.below(n + 1));
  Constraints ks;
  bool backwards = false;
  for (auto & e : es)
  {
    Pose2d r = relative(t[e.first], t[e.second]);
    // measured headings in any turn
    if (c.chance(30)) r.theta = ref::wrap(r.theta);
    else if (c.chance(20)) r.theta += 2 * M_PI * static_cast<double>(c.range(-1, 1));
    ks.push_back(constraint(e.first, e.second, r, information(c, 0, 3), c.chance(20)));
    backwards = backwards || e.first > e.second;
  }
  double l = c.pick(std::vector<double>{0.1, 0.02, 0.3}), a = c.pick(std::vector<double>{0.05, 0.01, 0.15});
  // The whole graph may start anywhere
  Pose2d base = c.chance(50) ? gen::pose(c, 50) : Pose2d();
  std::vector<Pose2d> expect;
  Scans scans;
  for (size_t i = 0; i < n; ++i)
  {
    Pose2d p = compose(base, t[i]);
    expect.push_back(p);
    if (i) { Pose2d d = noise(c, l, a); p = Pose2d(p.x + d.x, p.y + d.y, p.theta + d.theta); }
    if (c.chance(20)) { p.theta = ref::wrap(p.theta); if (i == 0) expect[0].theta = p.theta; }
    scans.push_back(make_scan(i, p, i % 3));
  }
  c.note << n << " poses, " << ks.size() << " constraints, perturbed by " << l << " m " << a << " rad";
  ndt_2d::CeresSolver solver;
  Pose2d first = scans[0]->getPose();
  CHECK(solver.optimize(ks, scans), "the optimisation failed");
  CHECK(same(scans[0]->getPose(), first), "the first scan moved");
  auto p = poses(scans);
  for (size_t i = 0; i < ks.size(); ++i)
  {
    auto r = residual(p[ks[i]->begin], p[ks[i]->end], *ks[i]);
    CHECK(r.allFinite() && r.cwiseAbs().maxCoeff() < 2e-3, "constraint " << ks[i]->begin << " -> " << ks[i]->end << " not satisfied: "
          << r(0) << " " << r(1) << " " << r(2));
  }
  for (size_t i = 0; i < n; ++i)
  {
    CHECK_NEAR(p[i].x, expect[i].x, 0.02, "x of scan " << i);
    CHECK_NEAR(p[i].y, expect[i].y, 0.02, "y of scan " << i);
    CHECK_NEAR(ref::wrap(p[i].theta - expect[i].theta), 0, 0.01, "heading of scan " << i);
  }
  if (n >= 3 && (ks.size() > n - 1 || backwards)) c.nontrivial();
}

PBT_TEST(C08, minimum, 6000, 200000, "a graph of 2 to 41 (sometimes 130) poses with noisy constraints and correlated information, sometimes with scans without constraints; "
         "non-trivial: the minimum is above zero and clearly below the start")
{
  size_t n = graph_size(c, 90);
  auto t = truth(c, n);
  auto es = edges(c, n, 1 + c.below(n + 1));
  size_t lonely = 0;
  if (n > 3 && c.chance(25))
  {
    // cut one scan off
    lonely = 1 + c.below(n - 1);
    if (c.chance(60)) lonely = n - 1;
    es.erase(std::remove_if(es.begin(), es.end(), [&](const std::pair<size_t, size_t> & e) {
        return e.first == lonely || e.second == lonely;}), es.end());
    c.label("a scan without constraints");
  }
  Constraints ks;
  double nl = c.pick(std::vector<double>{0.05, 0.2, 0.01}), na = c.pick(std::vector<double>{0.03, 0.08, 0.005});
  for (auto & e : es)
  {
    Pose2d r = relative(t[e.first], t[e.second]), d = noise(c, nl, na);
    if (c.chance(30)) r.theta = ref::wrap(r.theta);
    ks.push_back(constraint(e.first, e.second, Pose2d(r.x + d.x, r.y + d.y, r.theta + d.theta), information(c, 0, 3), c.chance(20)));
  }
  Scans scans;
  std::vector<Pose2d> start;
  bool drift = c.chance(30);
  if (drift) c.label("start drifts");
  for (size_t i = 0; i < n; ++i)
  {
    if (drift && i) start.push_back(compose(start.back(), compose(relative(t[i - 1], t[i]), noise(c, 0.1, 0.05))));
    else
    {
      Pose2d d = noise(c, 0.15, 0.08);
      start.emplace_back(t[i].x + d.x, t[i].y + d.y, t[i].theta + d.theta);
    }
    scans.push_back(make_scan(i, start.back(), i % 3));
  }
  auto f = freeze(scans);
  auto kb = copy(ks);
  c.note << n << " poses, " << ks.size() << " constraints, noise " << nl << " m " << na << " rad";
  ndt_2d::CeresSolver solver;
  bool ok = solver.optimize(ks, scans);
  CHECK(ok, "the optimisation failed");
  check_frozen(scans, f, ks, kb);
  auto p = poses(scans);
  CHECK(same(p[0], start[0]), "the first scan moved");
  if (lonely) CHECK(same(p[lonely], start[lonely]), "scan " << lonely << " moved without constraints");
  double f0 = cost(start, ks), f1 = cost(p, ks), decrease, soft;
  CHECK(std::isfinite(f1) && f1 <= f0 * (1 + 1e-9) + 1e-12, "worse than the start: " << f0 << " -> " << f1);
  newton(p, ks, decrease, soft);
  c.note << ", weighted error " << pbt::shortstr(f0) << " -> " << pbt::shortstr(f1) << ", possible decrease " << pbt::shortstr(decrease);
  // (a lonely scan may leave the rest of the graph in parts: those float, and stay stationary too)
  // The solver stops when progress gets slow; from a far start, or when parts of the graph float, sooner
  double slack = 0.06 * f1 + (drift || lonely ? 1e-3 : 1e-5) * f0;
  CHECK(decrease <= slack + 1e-6, "not a stationary point: weighted error " << f1 << " could decrease by " << decrease);
  if (f1 > 1e-3 && f1 < 0.9 * f0) c.nontrivial();
}

PBT_TEST(C08, isolated, 3000, 50000, "graphs where few or no scans have constraints, the first scan included; non-trivial: at least 2 scans and the first has none")
{
  size_t n = 1 + c.below(6);
  auto t = truth(c, n);
  Constraints ks;
  std::vector<bool> touched(n, false);
  size_t from = c.below(n);
  if (n > 1) for (size_t k = 0, m = c.below(4); k < m; ++k)
  {
    size_t a = from + c.below(n - from), b = from + c.below(n - from);
    if (a == b) continue;
    Pose2d r = relative(t[a], t[b]), d = noise(c, 0.02, 0.02);
    ks.push_back(constraint(a, b, Pose2d(r.x + d.x, r.y + d.y, r.theta + d.theta), information(c, 0, 2), false));
    touched[a] = touched[b] = true;
  }
  Scans scans;
  for (size_t i = 0; i < n; ++i) scans.push_back(make_scan(i, t[i], 1));
  c.note << n << " scans, " << ks.size() << " constraints" << (touched[0] ? "" : ", none at the first");
  ndt_2d::CeresSolver solver;
  bool ok = solver.optimize(ks, scans);
  CHECK(ok, "the optimisation failed");
  auto p = poses(scans);
  CHECK(same(p[0], t[0]), "the first scan moved");
  for (size_t i = 0; i < n; ++i) if (!touched[i]) CHECK(same(p[i], t[i]), "scan " << i << " moved without constraints");
  double f0 = cost(t, ks), f1 = cost(p, ks);
  CHECK(f1 <= f0 * (1 + 1e-9) + 1e-12, "worse than the start");
  if (n > 1 && !touched[0]) c.nontrivial();
}

PBT_TEST(C08, rigid, 3000, 100000, "the same noisy graph optimised at two places in the world; non-trivial: the minimum is above zero")
{
  size_t n = 2 + c.below(12);
  auto t = truth(c, n);
  auto es = edges(c, n, 1 + c.below(n + 1));
  Constraints ks;
  for (auto & e : es)
  {
    Pose2d r = relative(t[e.first], t[e.second]), d = noise(c, 0.05, 0.03);
    ks.push_back(constraint(e.first, e.second, Pose2d(r.x + d.x, r.y + d.y, r.theta + d.theta), information(c, 0, 2), false));
  }
  Pose2d base = gen::pose(c, 50);
  Scans a, b;
  for (size_t i = 0; i < n; ++i)
  {
    Pose2d d = noise(c, 0.1, 0.05), p(t[i].x + d.x, t[i].y + d.y, t[i].theta + d.theta);
    a.push_back(make_scan(i, p, 0));
    b.push_back(make_scan(i, compose(base, p), 0));
  }
  ndt_2d::CeresSolver s1, s2;
  CHECK(s1.optimize(ks, a) && s2.optimize(ks, b), "the optimisation failed");
  auto pa = poses(a), pb = poses(b);
  double fa = cost(pa, ks), fb = cost(pb, ks), d1, soft;
  newton(pa, ks, d1, soft);
  c.note << n << " poses, " << ks.size() << " constraints, moved by " << gen::show(base) << ", weighted error " << pbt::shortstr(fa);
  CHECK_NEAR(fa, fb, 4e-3 * std::max(fa, fb) + 1e-6, "weighted error depends on the place in the world");
  double tol = 1e-4 + 3 * std::sqrt((5e-3 * fa + 1e-6) / soft);
  for (size_t i = 0; i < n; ++i)
  {
    Pose2d m = compose(base, pa[i]);
    CHECK_NEAR(m.x, pb[i].x, tol, "x of scan " << i);
    CHECK_NEAR(m.y, pb[i].y, tol, "y of scan " << i);
    CHECK_NEAR(ref::wrap(m.theta - pb[i].theta), 0, tol, "heading of scan " << i);
  }
  if (fa > 1e-3) c.nontrivial();
}

PBT_TEST(C09, incremental, 3000, 100000, "up to 8 rounds on one solver: scans and constraints appended, poses changed, optimised, each compared with a new solver; "
         "sometimes an unusable constraint; non-trivial: at least 3 optimisations with constraints appended in between")
{
  bool large = c.rare(150);
  size_t most = large ? 120 : c.weighted({5, 1}) ? 60 : 25;
  auto t = truth(c, most);
  Scans scans;
  Constraints ks;
  ndt_2d::CeresSolver solver;
  size_t rounds = 1 + c.below(8), grown = 0;
  bool broken = false;
  {
    Scans none;
    if (c.chance(10)) CHECK(!solver.optimize(ks, none), "optimised nothing");
  }
  for (size_t r = 0; r < rounds; ++r)
  {
    size_t before = ks.size();
    size_t add = large ? 20 + c.below(30) : scans.empty() ? 2 + c.below(5) : c.below(6);
    for (size_t k = 0; k < add && scans.size() < most; ++k)
    {
      size_t i = scans.size();
      Pose2d d = noise(c, 0.1, 0.05);
      scans.push_back(make_scan(i, Pose2d(t[i].x + d.x, t[i].y + d.y, t[i].theta + d.theta), 0));
      if (i)
      {
        Pose2d rel = relative(t[i - 1], t[i]), e = noise(c, 0.03, 0.02);
        ks.push_back(constraint(i - 1, i, Pose2d(rel.x + e.x, rel.y + e.y, rel.theta + e.theta), information(c, 0, 2), false));
      }
    }
    for (size_t k = 0, m = c.below(large ? 40 : 4); k < m; ++k)
    {
      size_t a = c.below(scans.size()), b = c.below(scans.size());
      if (a == b) continue;
      Pose2d rel = relative(t[a], t[b]), e = noise(c, 0.03, 0.02);
      ks.push_back(constraint(a, b, Pose2d(rel.x + e.x, rel.y + e.y, rel.theta + e.theta), information(c, 0, 2), true));
    }
    if (c.chance(4))
    {
      size_t a = c.below(scans.size());
      size_t b = (a + 1) % scans.size();
      auto k = constraint(a, b, relative(t[a], t[b]), information(c, 0, 2), true);
      if (c.chance(50)) k->information.setConstant(std::nan(""));
      else k->transform(c.below(3)) = std::nan("");
      ks.push_back(k);
      broken = true;
      c.label("unusable constraint");
    }
    if (c.chance(40))
    {
      for (auto & s : scans)
      {
        if (!c.chance(50)) continue;
        Pose2d p = s->getPose(), d = noise(c, 0.05, 0.03);
        s->setPose(Pose2d(p.x + d.x, p.y + d.y, p.theta + d.theta));
      }
      c.label("poses changed in between");
    }
    if (r && ks.size() > before) ++grown;
    auto start = poses(scans);
    Scans other;
    for (size_t i = 0; i < scans.size(); ++i) other.push_back(make_scan(i, start[i], 0));
    ndt_2d::CeresSolver fresh;
    bool x = solver.optimize(ks, scans), y = fresh.optimize(ks, other);
    c.note << "[" << scans.size() << " scans " << ks.size() << " constraints " << x << "] ";
    CHECK(x == y, "the reused solver says " << x << ", a new one " << y);
    auto pa = poses(scans), pb = poses(other);
    if (!x)
    {
      for (size_t i = 0; i < pa.size(); ++i) CHECK(same(pa[i], start[i]), "a failed optimisation moved scan " << i);
      continue;
    }
    CHECK(!broken, "optimised with an unusable constraint");
    CHECK(same(pa[0], start[0]), "the first scan moved");
    double fa = cost(pa, ks), fb = cost(pb, ks);
    CHECK_NEAR(fa, fb, 4e-3 * std::max(fa, fb) + 1e-6, "weighted error of the reused and of a new solver, round " << r);
    double d, soft;
    newton(pa, ks, d, soft);
    CHECK(d <= 0.06 * fa + 1e-5 * cost(start, ks) + 1e-6, "not a stationary point: weighted error " << fa << " could decrease by " << d << ", round " << r);
    double tol = 1e-4 + 3 * std::sqrt((5e-3 * fa + 1e-6) / soft);
    for (size_t i = 0; i < pa.size(); ++i)
    {
      CHECK_NEAR(pa[i].x, pb[i].x, tol, "x of scan " << i << ", round " << r);
      CHECK_NEAR(pa[i].y, pb[i].y, tol, "y of scan " << i << ", round " << r);
      CHECK_NEAR(ref::wrap(pa[i].theta - pb[i].theta), 0, tol, "heading of scan " << i << ", round " << r);
    }
  }
  if (grown >= 2) c.nontrivial();
}
