// C13, C14: the particle filter
#include "common.hpp"
#include <array>
#include <world.hpp>
#include <ndt_2d/motion_model.hpp>
#include <ndt_2d/particle_filter.hpp>
using pbt::Case;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::ScanPtr;

namespace
{
typedef std::vector<Eigen::Vector3d> Particles;

// A matcher with a made-up score, so that the weights are known
struct Fake : public ndt_2d::ScanMatcher
{
  double a = 0, b = 0, scale = 1;
  int kind = 0;
  double weight(double x, double y, double t) const
  {
    switch (kind)
    {
      case 0: return scale * exp(-0.5 * (x - a) * (x - a) - 0.5 * (y - b) * (y - b));
      case 1: return x < a ? 0 : scale;                                     // half the plane has no support
      case 2: return scale * (1.1 + cos(t - a));
      case 3: return scale * (0.01 + std::fabs(sin(37 * x + 11 * y + t)));  // rough
      case 4: return std::sin(101 * x + 57 * y) > 0.9 ? scale : 0;          // few have support
    }
    return scale;
  }
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator &, const std::vector<ScanPtr>::const_iterator &) override {}
  double matchScan(const ScanPtr &, Pose2d &, Eigen::Matrix3d &) const override { return 0; }
  double scoreScan(const ScanPtr & s) const override { return scorePoints(s->getPoints(), s->getPose()); }
  double scorePoints(const std::vector<Point> & points, const Pose2d & p) const override
  {
    CHECK(points.size() == expected_points, "scored " << points.size() << " points of " << expected_points);
    return -weight(p.x, p.y, p.theta);
  }
  void reset() override {}
  size_t expected_points = 0;
};

Particles particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  Particles p;
  for (auto & q : m.poses)
  {
    CHECK(q.position.z == 0 && q.orientation.x == 0 && q.orientation.y == 0, "a particle off the plane");
    CHECK_NEAR(q.orientation.z * q.orientation.z + q.orientation.w * q.orientation.w, 1, 1e-12, "orientation of a particle");
    p.emplace_back(q.position.x, q.position.y, ref::wrap(2 * std::atan2(q.orientation.z, q.orientation.w)));
  }
  return p;
}

// The filter's statistics against those of its particles with weights w (any scale)
void check_statistics(ndt_2d::ParticleFilter & f, const Particles & p, const std::vector<double> & w, const std::string & when)
{
  typedef long double real;
  real sum = 0, mx = 0, my = 0, sc = 0, ss = 0;
  double m = 0;
  CHECK(p.size() == w.size(), p.size() << " particles, expected " << w.size() << " " << when);
  for (size_t i = 0; i < p.size(); ++i)
  {
    sum += w[i];
    mx += w[i] * static_cast<real>(p[i](0));
    my += w[i] * static_cast<real>(p[i](1));
    sc += w[i] * cosl(p[i](2));
    ss += w[i] * sinl(p[i](2));
    m = std::max({m, std::fabs(p[i](0)), std::fabs(p[i](1))});
  }
  mx /= sum; my /= sum; sc /= sum; ss /= sum;
  Eigen::Vector3d mean = f.getMean();
  Eigen::Matrix3d cov = f.getCovariance();
  double n = static_cast<double>(p.size()), tm = (1e-15 * n + 1e-11) * (m + 1), tc = (4e-15 * n + 1e-11) * (m * m + 1);
  // (a heading comes back from the message with a last-digit error, which rough scores magnify)
  CHECK_NEAR(mean(0), static_cast<double>(mx), tm, "mean x " << when);
  CHECK_NEAR(mean(1), static_cast<double>(my), tm, "mean y " << when);
  real xx = 0, xy = 0, yy = 0, tt = 0;
  real r = sqrtl(sc * sc + ss * ss);
  real mt = atan2l(ss, sc);
  bool heading = r > 1e-6L;
  if (heading) CHECK_NEAR(ref::wrap(mean(2) - static_cast<double>(mt)), 0, (1e-14 * n + 1e-11) / static_cast<double>(r), "mean heading " << when);
  // the variance of the heading is about the mean the filter reports
  for (size_t i = 0; i < p.size(); ++i)
  {
    xx += w[i] * (p[i](0) - mx) * (p[i](0) - mx);
    xy += w[i] * (p[i](0) - mx) * (p[i](1) - my);
    yy += w[i] * (p[i](1) - my) * (p[i](1) - my);
    real d = remainderl(static_cast<real>(p[i](2)) - mean(2), 2 * M_PIl);
    tt += w[i] * d * d;
  }
  CHECK_NEAR(cov(0, 0), static_cast<double>(xx / sum), tc, "variance of x " << when);
  CHECK_NEAR(cov(0, 1), static_cast<double>(xy / sum), tc, "covariance of x and y " << when);
  CHECK_NEAR(cov(1, 0), static_cast<double>(xy / sum), tc, "covariance of y and x " << when);
  CHECK_NEAR(cov(1, 1), static_cast<double>(yy / sum), tc, "variance of y " << when);
  CHECK_NEAR(cov(2, 2), static_cast<double>(tt / sum), 1e-13 * n + 1e-10, "variance of the heading " << when);
  CHECK(cov(0, 2) == 0 && cov(1, 2) == 0 && cov(2, 0) == 0 && cov(2, 1) == 0, "position and heading are correlated " << when);
}

double kld_bound(size_t k, double err, double z)
{
  double b = 2.0 / (9.0 * (k - 1)), t = 1.0 - b + std::sqrt(b) * z;
  return (k - 1) / (2.0 * err) * t * t * t;
}
typedef std::array<long, 3> Bin;
Bin bin(const Eigen::Vector3d & p)
{
  return {std::lround(std::floor(p(0) / 0.5)), std::lround(std::floor(p(1) / 0.5)), std::lround(std::floor(p(2) / 0.2671))};
}
bool near_edge(const Eigen::Vector3d & p)
{
  auto f = [](double v) { v -= std::floor(v); return v < 1e-9 || v > 1 - 1e-9; };
  return f(p(0) / 0.5) || f(p(1) / 0.5) || f(p(2) / 0.2671);
}

struct Key
{
  double v[3];
  explicit Key(const Eigen::Vector3d & p) : v{p(0), p(1), p(2)} {}
  bool operator<(const Key & o) const { return std::lexicographical_compare(v, v + 3, o.v, o.v + 3); }
};
// Survivors of `before` with weights w, in a KLD-bounded number
void check_resampled(const Particles & before, const std::vector<double> & w, const Particles & after,
                     size_t least, size_t most, double err, double z, const std::string & when)
{
  std::map<Key, double> weight;
  double total = 0;
  for (size_t i = 0; i < before.size(); ++i) { weight[Key(before[i])] += w[i]; total += w[i]; }
  CHECK(after.size() >= least && after.size() <= most, after.size() << " particles, allowed are " << least << " to " << most << " " << when);
  std::map<Key, size_t> drawn;
  std::set<Bin> bins;
  bool edge = false;
  for (auto & p : before) edge = edge || near_edge(p);
  for (size_t i = 0; i < after.size(); ++i)
  {
    auto f = weight.find(Key(after[i]));
    CHECK(f != weight.end(), "particle " << i << " (" << after[i](0) << " " << after[i](1) << " " << after[i](2) << ") is no copy " << when);
    CHECK(f->second > 0, "a particle of zero weight survived " << when);
    ++drawn[f->first];
    if (edge && !(before.size() && after[i] == after[0] && drawn.size() == 1)) continue;
    bins.insert(bin(after[i]));
    size_t n = i + 1, k = bins.size();
    double need = k > 1 ? std::max<double>(least, kld_bound(k, err, z)) : static_cast<double>(most);
    need = std::min<double>(need, most);
    if (n == after.size())
      CHECK(n >= need - 1 - 1e-9 * need, "stopped after " << n << " draws with " << k << " occupied bins: " << need << " are needed " << when);
    else
      CHECK(n < need + 1e-9 * need, "did not stop after " << n << " draws with " << k << " occupied bins: " << need << " are enough " << when);
  }
  if (after.size() < 100) return;
  double n = static_cast<double>(after.size());
  // (the number of draws depends on what was drawn, but only through new bins, early on)
  for (auto & f : weight)
  {
    double q = f.second / total, expect = n * q, dev = std::sqrt(n * q * (1 - q));
    auto d = drawn.find(f.first);
    double count = d == drawn.end() ? 0 : static_cast<double>(d->second);
    CHECK(std::fabs(count - expect) <= 7 * dev + 12, "a particle of share " << q << " was drawn " << count << " times in " << n << " " << when);
  }
}

struct Setup
{
  size_t least, most;
  std::shared_ptr<ndt_2d::MotionModel> model;
};
double sigma(Case & c) { return c.pick(std::vector<double>{0.5, 0.0, 0.1, 2.0, 0.05}); }
}  // namespace

PBT_TEST(C13, histories, 40000, 800000, "up to 12 operations (initialise, motion, measurement with a made-up matcher, resampling) on a filter of 1 to 400 (sometimes thousands of) particles, all statistics after each; "
         "non-trivial: a measurement with different weights and, later, another operation")
{
  world::reset(c.seed());
  bool large = c.rare(250);
  size_t least = large ? 400 + c.below(4000) : 1 + c.size(60), most = least + (large ? c.below(6000) : c.size(340));
  if (large) c.label("large");
  auto model = std::make_shared<ndt_2d::MotionModel>(c.real(0, 0.3), c.real(0, 0.3), c.real(0, 0.3), c.real(0, 0.3), 0);
  ndt_2d::ParticleFilter f(least, most, model);
  auto matcher = std::make_shared<Fake>();
  ndt_2d::ScanMatcherPtr base = matcher;
  auto p = particles(f);
  std::vector<double> w(least, 1.0);
  check_statistics(f, p, w, "in the beginning");
  bool measured = false;
  c.note << least << " to " << most << " particles: ";
  for (size_t k = 0, n = 1 + c.below(12); k < n; ++k)
  {
    std::string what;
    switch (k == 0 && c.chance(80) ? 0 : c.weighted({1, 3, 4, 3}))
    {
      case 0:
        {
          double m = c.pick(std::vector<double>{5, 1, 200});
          double x = c.coord(m), y = c.coord(m), t = c.angle();
          f.init(x, y, t, sigma(c), sigma(c), c.chance(20) ? 3.0 : sigma(c));
          w.assign(p.size(), 1.0);
          what = "after initialising";
          break;
        }
      case 1:
        {
          f.update(c.real(-1, 1), c.chance(30) ? c.real(-1, 1) : 0, c.real(-1, 1));
          what = "after a motion";
          break;
        }
      case 2:
        {
          matcher->kind = c.below(6);
          auto mean = f.getMean();
          matcher->a = mean(0) + c.real(-0.5, 0.5);
          matcher->b = mean(1) + c.real(-0.5, 0.5);
          matcher->scale = c.pick(std::vector<double>{1.0, 1e-3, 1e-12, 1e-200, 30.0});
          matcher->expected_points = c.below(4);
          auto s = std::make_shared<ndt_2d::Scan>(3);
          s->setPose(gen::pose(c, 10));
          std::vector<Point> pts(matcher->expected_points, Point(1, 2));
          s->setPoints(pts);
          f.measure(base, s);
          double sum = 0;
          for (size_t i = 0; i < p.size(); ++i)
          {
            w[i] = matcher->weight(p[i](0), p[i](1), p[i](2)) / matcher->scale;
            sum += w[i];
          }
          // (a particle at the border of the half plane, or no support at all: see C15)
          if (matcher->kind == 1) for (auto & q : p) if (std::fabs(q(0) - matcher->a) < 1e-9) sum = 0;
          if (sum < 1e-100) { c.label("no support"); return; }
          measured = measured || matcher->kind != 5;
          what = "after a measurement";
          break;
        }
      default:
        f.resample(c.real(0.01, 0.1), c.real(0.5, 3));
        w.assign(particles(f).size(), 1.0);
        what = "after resampling";
    }
    c.note << what << " ";
    c.label(what);
    auto q = particles(f);
    if (what == "after a motion" || what == "after initialising") CHECK(q.size() == p.size(), "number of particles changed " << what);
    if (what == "after a measurement")
    {
      CHECK(q.size() == p.size(), "number of particles changed " << what);
      for (size_t i = 0; i < q.size(); ++i) CHECK(q[i] == p[i], "a measurement moved particle " << i);
    }
    CHECK(q.size() >= least && q.size() <= most, "number of particles " << q.size() << " " << what);
    for (auto & x : q) CHECK(x.allFinite(), "a particle is not finite " << what);
    p = q;
    check_statistics(f, p, w, what);
    if (measured && k + 1 < n) c.nontrivial();
  }
}

PBT_TEST(C13, initial, 3000, 40000, "4000 particles initialised around a pose: mean, spread and independence of the three coordinates; non-trivial: at least two deviations above zero")
{
  world::reset(c.seed());
  const size_t n = 4000;
  auto model = std::make_shared<ndt_2d::MotionModel>(0.1, 0.1, 0.1, 0.1, 0);
  ndt_2d::ParticleFilter f(n, n + c.below(3), model);
  if (c.chance(30)) f.init(7, 8, 1, 2, 2, 0.4);
  double m = c.pick(std::vector<double>{5, 50});
  double at[3] = {c.coord(m), c.coord(m), c.angle()}, sd[3] = {sigma(c), sigma(c), std::min(sigma(c), 0.5)};
  f.init(at[0], at[1], at[2], sd[0], sd[1], sd[2]);
  c.note << "around (" << pbt::shortstr(at[0]) << " " << pbt::shortstr(at[1]) << " " << pbt::shortstr(at[2]) << ") deviations " << sd[0] << " " << sd[1] << " " << sd[2];
  auto p = particles(f);
  CHECK(p.size() == n, "number of particles");
  double z[3] = {0, 0, 0}, zz[3][3] = {{0}};
  for (auto & q : p)
  {
    double d[3] = {q(0) - at[0], q(1) - at[1], ref::wrap(q(2) - at[2])};
    for (int i = 0; i < 3; ++i)
    {
      z[i] += d[i] / n;
      for (int j = 0; j < 3; ++j) zz[i][j] += d[i] * d[j] / n;
    }
  }
  static const char * names[3] = {"x", "y", "heading"};
  int spread = 0;
  for (int i = 0; i < 3; ++i)
  {
    double fl = 1e-6 * (std::fabs(at[i]) + 1);
    CHECK_NEAR(z[i], 0, 6.5 * sd[i] / std::sqrt(1.0 * n) + fl, "mean error of " << names[i]);
    CHECK_NEAR(zz[i][i], sd[i] * sd[i], 6.5 * std::sqrt(2.0 / n) * sd[i] * sd[i] + fl * (sd[i] + fl), "variance of " << names[i]);
    for (int j = 0; j < i; ++j)
      CHECK_NEAR(zz[i][j], 0, 6.5 / std::sqrt(1.0 * n) * sd[i] * sd[j] + fl * (sd[i] + sd[j] + fl), "covariance of " << names[i] << " and " << names[j]);
    if (sd[i] > 0) ++spread;
  }
  if (spread >= 2) c.nontrivial();
}

PBT_TEST(C14, survivors, 15000, 300000, "a spread of particles weighted by a made-up matcher, resampled one to three times with random KLD parameters; "
         "non-trivial: the number of survivors is strictly between minimum and maximum, or more than one were drawn at random from different weights")
{
  world::reset(c.seed());
  bool large = c.rare(250);
  size_t least = large ? 1000 + c.below(6000) : 1 + c.size(100), most = least + (large ? c.below(60000) : c.chance(50) ? c.size(400) : c.size(4000));
  if (large) c.label("large");
  auto model = std::make_shared<ndt_2d::MotionModel>(0.1, 0.1, 0.1, 0.1, 0);
  ndt_2d::ParticleFilter f(least, most, model);
  double m = c.pick(std::vector<double>{5, 50});
  f.init(c.coord(m), c.coord(m), c.angle(), large ? 5 : sigma(c), large ? 5 : sigma(c), sigma(c));
  auto matcher = std::make_shared<Fake>();
  ndt_2d::ScanMatcherPtr base = matcher;
  auto s = std::make_shared<ndt_2d::Scan>(0);
  c.note << least << " to " << most << " particles: ";
  auto p = particles(f);
  std::vector<double> w(p.size(), 1.0);
  for (size_t k = 0, n = 1 + c.below(3); k < n; ++k)
  {
    if (c.chance(k ? 40 : 85))
    {
      matcher->kind = c.below(5);
      auto mean = f.getMean();
      matcher->a = mean(0) + c.real(-0.5, 0.5);
      matcher->b = mean(1) + c.real(-0.5, 0.5);
      matcher->scale = c.pick(std::vector<double>{1.0, 1e-3, 30.0});
      f.measure(base, s);
      double sum = 0;
      for (size_t i = 0; i < p.size(); ++i) sum += w[i] = matcher->weight(p[i](0), p[i](1), p[i](2));
      if (sum < 1e-100) return;
      c.note << "measurement " << matcher->kind << " ";
    }
    if (c.chance(15))
    {
      // the weights stay with the particles
      f.update(c.real(-1, 1), 0, c.real(-1, 1));
      p = particles(f);
      c.note << "motion ";
    }
    double err = c.pick(std::vector<double>{0.01, 0.05, 0.2, 0.002}), z = c.pick(std::vector<double>{0.99, 2.33, 0.5, 3.0});
    f.resample(err, z);
    auto q = particles(f);
    c.note << "resampling err " << err << " z " << z << " -> " << q.size() << " ";
    check_resampled(p, w, q, least, most, err, z, "in resampling " + std::to_string(k));
    if (q.size() == least) c.label("minimum");
    else if (q.size() == most) c.label("maximum");
    else c.label("in between");
    if ((q.size() > least && q.size() < most) || (q.size() > 1 && p.size() > 1)) c.nontrivial();
    p = q;
    w.assign(p.size(), 1.0);
  }
}

PBT_TEST(C14, shares, 2000, 30000, "2 to 40 particles with known weights resampled into up to 30000: every share against its weight, and again from the uniform weights after; "
         "non-trivial: at least 3 particles with different positive weights")
{
  world::reset(c.seed());
  size_t least = 2 + c.below(39), most = 30000;
  auto model = std::make_shared<ndt_2d::MotionModel>(0.1, 0.1, 0.1, 0.1, 0);
  ndt_2d::ParticleFilter f(least, most, model);
  double tight = c.pick(std::vector<double>{0.01, 0.3});
  f.init(0.25 + c.below(5), 0.25, 0.13, tight, tight, tight / 3);
  auto matcher = std::make_shared<Fake>();
  ndt_2d::ScanMatcherPtr base = matcher;
  auto s = std::make_shared<ndt_2d::Scan>(0);
  matcher->kind = c.pick(std::vector<int>{3, 0, 1, 2});
  auto p = particles(f);
  auto mean = f.getMean();
  matcher->a = mean(0);
  matcher->b = mean(1);
  std::vector<double> w;
  f.measure(base, s);
  std::set<double> distinct;
  for (auto & x : p)
  {
    w.push_back(matcher->weight(x(0), x(1), x(2)));
    if (w.back() > 0) distinct.insert(w.back());
  }
  if (distinct.empty()) return;
  bool twice = c.chance(50);
  if (twice)
  {
    // few survivors first
    double err = 5;
    f.resample(err, 0.99);
    auto q = particles(f);
    check_resampled(p, w, q, least, most, err, 0.99, "in the first resampling");
    p = q;
    w.assign(p.size(), 1.0);
  }
  double err = 2e-5;
  f.resample(err, 2);
  auto q = particles(f);
  c.note << least << " particles, " << distinct.size() << " different weights" << (twice ? ", resampled before" : "") << " -> " << q.size();
  check_resampled(p, w, q, least, most, err, 2, "in the resampling");
  if (distinct.size() >= 3) c.nontrivial();
}
