// C15: measurements without evidence
#include "matching.hpp"
#include <world.hpp>
#include <ndt_2d/motion_model.hpp>
#include <ndt_2d/particle_filter.hpp>
using namespace matching;
using pbt::Case;

namespace
{
typedef std::vector<Eigen::Vector3d> Particles;
Particles particles(ndt_2d::ParticleFilter & f)
{
  geometry_msgs::msg::PoseArray m;
  f.getMsg(m);
  Particles p;
  for (auto & q : m.poses) p.emplace_back(q.position.x, q.position.y, ref::wrap(2 * std::atan2(q.orientation.z, q.orientation.w)));
  return p;
}
// Mean and covariance are those of some weights: finite, non-negative and summing to one
void check_belief(ndt_2d::ParticleFilter & f, const Particles & p, const std::string & when)
{
  Eigen::Vector3d mean = f.getMean();
  Eigen::Matrix3d cov = f.getCovariance();
  CHECK(!p.empty(), "no particles " << when);
  CHECK(mean.allFinite(), "the mean is not finite " << when);
  CHECK(cov.allFinite(), "the covariance is not finite " << when);
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (auto & q : p)
  {
    CHECK(q.allFinite(), "a particle is not finite " << when);
    for (int i = 0; i < 2; ++i) { lo[i] = std::min(lo[i], q(i)); hi[i] = std::max(hi[i], q(i)); }
  }
  double m = std::max({std::fabs(lo[0]), std::fabs(hi[0]), std::fabs(lo[1]), std::fabs(hi[1]), 1.0});
  for (int i = 0; i < 2; ++i)
  {
    CHECK(mean(i) >= lo[i] - 1e-10 * m && mean(i) <= hi[i] + 1e-10 * m, "the mean " << mean(i) << " is outside of the particles, " << lo[i] << " to " << hi[i] << " " << when);
    double w = hi[i] - lo[i];
    CHECK(cov(i, i) >= -1e-10 * m * m && cov(i, i) <= w * w / 4 + 1e-10 * m * m, "variance " << cov(i, i) << " of particles " << w << " apart " << when);
  }
  CHECK(mean(2) >= -M_PI - 1e-9 && mean(2) <= M_PI + 1e-9, "mean heading " << mean(2) << " " << when);
  CHECK(cov(2, 2) >= 0 && cov(2, 2) <= M_PI * M_PI + 1e-9, "variance of the heading " << cov(2, 2) << " " << when);
  CHECK(cov(0, 0) * cov(1, 1) - cov(0, 1) * cov(0, 1) >= -1e-9 * m * m * (cov(0, 0) + cov(1, 1) + 1e-10 * m * m), "the covariance is not positive semidefinite " << when);
}

// Any points: of a place, none, a few, far ones, all the same, in one line
Points any_points(Case & c, const Place & w, const Pose2d & at, double range, std::string & kind)
{
  Points pts;
  switch (c.weighted({12, 3, 2, 2, 2, 2}))
  {
    case 0: kind = "a view"; return view(c, w, at, range, 80);
    case 1: kind = "no points"; return pts;
    case 2:
      kind = "few points";
      for (size_t i = 0, n = 1 + c.below(4); i < n; ++i) pts.emplace_back(c.coord(range), c.coord(range));
      return pts;
    case 3:
      kind = "far points";
      for (size_t i = 0, n = 1 + c.below(40); i < n; ++i) pts.emplace_back(c.coord(1) * std::pow(10.0, c.real(1, 12)), c.coord(1) * std::pow(10.0, c.real(1, 12)));
      return pts;
    case 4:
      {
        kind = "one point many times";
        double x = c.coord(range), y = c.coord(range);
        pts.assign(1 + c.below(60), Point(x, y));
        return pts;
      }
  }
  kind = "a line";
  double a = c.chance(40) ? 0 : c.angle(), d = c.coord(range / 2);
  for (size_t i = 0, n = 2 + c.below(60); i < n; ++i)
  {
    double u = 0.03 * static_cast<double>(i);
    pts.emplace_back(u * cos(a) - d * sin(a), u * sin(a) + d * cos(a));
  }
  return pts;
}
}  // namespace

PBT_TEST(C15, scores, 30000, 600000, "maps of any scans (empty, sparse, degenerate) against any scan: scores, corrections and covariances; non-trivial: the score is zero or below 1e-100, or the map is empty")
{
  Parameters p = parameters(c);
  auto m = make(p);
  Place w = place(c, c.pick(std::vector<double>{10, 1000}), 0.6 * p.range);
  std::string kind;
  c.note << p.show() << " map:";
  if (c.chance(92))
  {
    Scans s;
    for (size_t i = 0, n = c.below(5); i < n; ++i)
    {
      Pose2d at(w.x + c.real(-1, 1), w.y + c.real(-1, 1), c.angle());
      s.push_back(scan(i, at, any_points(c, w, at, p.range, kind)));
      c.note << " " << kind << ",";
    }
    m->addScans(s.begin(), s.end());
    if (s.empty()) c.label("empty map");
  }
  else c.label("no map");
  for (size_t k = 0; k < 2; ++k)
  {
    Pose2d at(w.x + c.real(-1, 1), w.y + c.real(-1, 1), c.angle());
    if (c.chance(15)) { at.x += c.coord(1) * std::pow(10.0, c.real(1, 12)); at.y += c.coord(100); }
    auto s = scan(9, at, any_points(c, w, at, p.range, kind));
    c.note << " scan: " << kind;
    c.label(kind);
    double a = m->scoreScan(s), b = m->scorePoints(s->getPoints(), at);
    CHECK(std::isfinite(a) && a <= 0 && a >= -1 - 1e-9, "score of the scan " << a);
    CHECK(a == b, "score of the scan " << a << " and of its points " << b);
    Pose2d corr;
    Eigen::Matrix3d cov;
    cov.setConstant(std::nan(""));
    double score = m->matchScan(s, corr, cov);
    c.note << " score " << pbt::shortstr(score);
    CHECK(std::isfinite(score) && score <= 0 && score >= -1 - 1e-9, "score of the match " << score);
    CHECK(std::isfinite(corr.x) && std::isfinite(corr.y) && std::isfinite(corr.theta), "the correction is not finite");
    CHECK(cov.allFinite(), "the covariance of the match is not finite, score " << score);
    for (int i = 0; i < 3; ++i) CHECK(cov(i, i) > -1e-9, "negative variance " << cov(i, i));
    if (s->getPoints().empty() || score > -1e-100) c.nontrivial();
  }
}

PBT_TEST(C15, belief, 3000, 100000, "particle filters measuring up to 8 scans of every kind against maps of every kind, with motion and resampling in between, and a scan with evidence at the end; "
         "non-trivial: a scan gave no particle any support, and a later one did")
{
  world::reset(c.seed());
  Parameters p = parameters(c);
  std::shared_ptr<ndt_2d::ScanMatcherNDT> m = make(p);
  ndt_2d::ScanMatcherPtr base = m;
  Place w = place(c, 10, 0.6 * p.range);
  std::string kind;
  Scans map = map_scans(c, w, p.range, 0.8);
  if (c.chance(15)) map.clear();
  if (c.chance(15)) for (auto & s : map) s->setPoints(any_points(c, w, s->getPose(), p.range, kind));
  m->addScans(map.begin(), map.end());
  bool large = c.rare(150);
  size_t least = large ? 400 + c.below(2000) : 1 + c.size(60), most = least + (large ? c.below(2000) : c.size(200));
  auto model = std::make_shared<ndt_2d::MotionModel>(0.2, 0.2, 0.2, 0.2, 0);
  ndt_2d::ParticleFilter f(least, most, model);
  if (c.chance(90))
  {
    double sd = c.pick(std::vector<double>{0.2, 0.0, 1.0, 50.0});
    f.init(w.x, w.y, c.angle(), sd, sd, sd);
  }
  c.note << least << " to " << most << " particles, map of " << map.size() << ":";
  bool none = false, good = false;
  size_t rounds = 1 + c.below(8);
  for (size_t r = 0; r <= rounds; ++r)
  {
    if (r == rounds && c.chance(50)) f.init(w.x, w.y, 0.3, 0.3, 0.3, 0.3);
    if (c.chance(60)) f.update(c.real(-0.3, 0.3), 0, c.real(-0.3, 0.3));
    auto before = particles(f);
    check_belief(f, before, "before measuring");
    Pose2d at(w.x, w.y, 0);
    if (c.chance(50)) { auto mean = f.getMean(); at = Pose2d(mean(0), mean(1), mean(2)); }
    auto pts = r == rounds ? view(c, w, at, p.range, 60) : any_points(c, w, at, p.range, kind);
    auto s = scan(5, at, pts);
    double support = 0;
    std::vector<double> weights;
    for (auto & q : before)
    {
      weights.push_back(-m->scorePoints(pts, Pose2d(q(0), q(1), q(2))));
      support += weights.back();
    }
    f.measure(base, s);
    auto after = particles(f);
    CHECK(after.size() == before.size(), "a measurement changed the number of particles");
    for (size_t i = 0; i < after.size(); ++i) CHECK(after[i] == before[i], "a measurement moved a particle");
    std::ostringstream o;
    o << "after measuring " << (r == rounds ? "a view" : kind) << " with total score " << support;
    check_belief(f, after, o.str());
    c.note << " " << kind << " " << pbt::shortstr(support);
    if (support == 0) { none = true; c.label("no support"); }
    if (support > 1e-3)
    {
      if (none) good = true;
      // filtering goes on as usual: the mean is the weighted one
      double mx = 0, my = 0, far = 1;
      for (size_t i = 0; i < after.size(); ++i)
      {
        mx += weights[i] / support * after[i](0);
        my += weights[i] / support * after[i](1);
        far = std::max({far, std::fabs(after[i](0)), std::fabs(after[i](1))});
      }
      auto mean = f.getMean();
      // (headings come back from messages with an error in the last digit)
      CHECK_NEAR(mean(0), mx, 1e-6 * far, "weighted mean x");
      CHECK_NEAR(mean(1), my, 1e-6 * far, "weighted mean y");
    }
    if (c.chance(70))
    {
      f.resample(c.pick(std::vector<double>{0.01, 0.1}), c.pick(std::vector<double>{2.3, 0.99}));
      auto q = particles(f);
      CHECK(q.size() >= least && q.size() <= most, q.size() << " particles after resampling, allowed are " << least << " to " << most);
      check_belief(f, q, "after resampling");
      std::set<std::vector<double>> known;
      for (auto & x : after) known.insert({x(0), x(1), x(2)});
      for (auto & x : q) CHECK(known.count({x(0), x(1), x(2)}), "resampling made up a particle");
    }
  }
  if (none && good) c.nontrivial();
}
