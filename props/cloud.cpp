// C35: the particle cloud of the node
#include "play.hpp"
using namespace node;

namespace
{
typedef std::array<double, 3> P;
std::vector<P> particles(Sim & s)
{
  std::vector<P> v;
  for (auto & p : s.cloud().poses)
  {
    CHECK(p.position.z == 0 && p.orientation.x == 0 && p.orientation.y == 0, "a particle off the plane");
    v.push_back({p.position.x, p.position.y, 2 * std::atan2(p.orientation.z, p.orientation.w)});
  }
  return v;
}
void check_header(Sim & s, const std::string & when)
{
  CHECK(s.cloud().header.frame_id == "map", "a cloud in frame " << s.cloud().header.frame_id << " " << when);
  CHECK(rclcpp::Time(s.cloud().header.stamp).nanoseconds() == stub::now_ns(), "stamp of the cloud " << when);
}
Config filter_config(Case & c, int particles_)
{
  Config f = any_config(c, true, c.chance(50));
  f.min_particles = f.max_particles = particles_;
  f.map_file = "start";
  f.travel = 0.1;
  write_map(c, f.map_file, 1 + c.below(4), 1, f.barycenter);
  return f;
}
void tell_pose(Sim & s, const Pose2d & p, const double * sd)
{
  size_t n = s.clouds();
  s.pose(p, sd[0] * sd[0], sd[1] * sd[1], sd[2] * sd[2]);
  CHECK(s.clouds() == n + 1, "a pose gave " << s.clouds() - n << " clouds");
  check_header(s, "after a pose");
}
void scan(Sim & s, Case & c, size_t beams)
{
  size_t n = s.clouds();
  std::vector<float> r(beams, 1.0f);
  (void)c;
  s.send(s.laser(r));
  CHECK(s.clouds() == n + 1, "a scan gave " << s.clouds() - n << " clouds");
  check_header(s, "after a scan");
}
struct Spread { double mean[3] = {0, 0, 0}, var[3] = {0, 0, 0}; };
Spread spread(const std::vector<P> & v, const P & about)
{
  Spread r;
  double n = static_cast<double>(v.size());
  for (auto & p : v)
    for (int i = 0; i < 3; ++i)
    {
      double d = p[i] - about[i];
      if (i == 2) d = ref::wrap(d);
      r.mean[i] += d / n;
      r.var[i] += d * d / n;
    }
  for (int i = 0; i < 3; ++i) r.var[i] -= r.mean[i] * r.mean[i];
  return r;
}
double kld_bound(size_t k, double err, double z)
{
  double b = 2.0 / (9.0 * static_cast<double>(k - 1)), t = 1.0 - b + std::sqrt(b) * z;
  return static_cast<double>(k - 1) / (2.0 * err) * t * t * t;
}
const char * names[3] = {"x", "y", "heading"};
}  // namespace

PBT_TEST(C35, initial, 2500, 50000, "initial poses with any covariance for a filter of 2000 particles, before and after other poses and scans: count, mean and spread of the cloud; non-trivial: at least two deviations above zero")
{
  begin(c);
  const int n = 2000;
  Config f = filter_config(c, n);
  Sim s(f);
  s.mounting.translation.x = 0.2;
  s.odom = gen::pose(c, 20);
  s.stamp = 1;
  c.note << f.show();
  const std::vector<double> sds{0.5, 0.0, 0.1, 1.5, 0.02};
  for (size_t k = 0, m = 1 + c.below(3); k < m; ++k)
  {
    Pose2d p = gen::pose(c, 5);
    p.theta = ref::wrap(p.theta);
    double sd[3] = {c.pick(sds), c.pick(sds), std::min(0.5, c.pick(sds))};
    c.note << "; pose " << show(p) << " deviations " << sd[0] << " " << sd[1] << " " << sd[2];
    tell_pose(s, p, sd);
    auto v = particles(s);
    CHECK(v.size() == n, v.size() << " particles of " << n);
    auto q = spread(v, {p.x, p.y, p.theta});
    int wide = 0;
    for (int i = 0; i < 3; ++i)
    {
      double fl = 1e-6 * (1 + std::fabs(p.x) + std::fabs(p.y));
      CHECK_NEAR(q.mean[i], 0, 7 * sd[i] / std::sqrt(1.0 * n) + fl, "mean error of " << names[i]);
      CHECK_NEAR(q.var[i], sd[i] * sd[i], 7 * std::sqrt(2.0 / n) * sd[i] * sd[i] + fl * (sd[i] + fl), "variance of " << names[i]);
      wide += sd[i] > 0;
    }
    if (wide >= 2) c.nontrivial();
    if (c.chance(40))
    {
      s.odom = compose(s.odom, Pose2d(c.real(0.2, 1), 0, c.coord(1)));
      scan(s, c, 2);
      c.note << "; scan";
    }
  }
}

PBT_TEST(C35, motion, 3000, 60000, "from an exact pose the robot moves by 2.5 to 4 m with any turns, and a scan tells nothing: spread of the first turn, distance and second turn of 3000 particles against the motion parameters; "
         "non-trivial: at least two parameters above zero")
{
  begin(c);
  const int n = 3000;
  Config f = filter_config(c, n);
  int noisy = 0;
  for (int i = 0; i < 5; ++i)
  {
    f.alpha[i] = c.chance(50) ? c.pick(std::vector<double>{0.01, 0.002, 0.02}) : 0.0;
    noisy += i < 4 && f.alpha[i] > 0;
  }
  Sim s(f);
  s.odom = gen::pose(c, 20);
  s.stamp = 1;
  Pose2d p = gen::pose(c, 5);
  p.theta = ref::wrap(p.theta);
  double none[3] = {0, 0, 0};
  // a scan is needed before the pose for half of the cases, nothing should come of it
  if (c.chance(50)) s.send(s.laser({1.0f, 1.0f}));
  tell_pose(s, p, none);
  double t = c.real(2.5, 4), a = c.chance(30) ? 0 : c.real(-M_PI, M_PI), h = c.chance(30) ? 0 : c.real(-M_PI, M_PI);
  s.odom = compose(s.odom, Pose2d(t * cos(a), t * sin(a), h));
  scan(s, c, c.below(3));
  c.note << f.show() << " alphas " << f.alpha[0] << " " << f.alpha[1] << " " << f.alpha[2] << " " << f.alpha[3] << " " << f.alpha[4] << " motion " << t << " at " << a << " turning " << h;
  auto v = particles(s);
  CHECK(v.size() == n, v.size() << " particles of " << n);
  double r1 = ref::wrap(a), r2 = ref::wrap(h - a);
  double q1 = std::min(std::fabs(r1), M_PI - std::fabs(r1)), q2 = std::min(std::fabs(r2), M_PI - std::fabs(r2));
  double want[3] = {f.alpha[0] * q1 * q1 + f.alpha[1] * t * t, f.alpha[2] * t * t + f.alpha[3] * (q1 * q1 + q2 * q2), f.alpha[0] * q2 * q2 + f.alpha[1] * t * t};
  std::vector<P> w;
  for (auto & x : v)
  {
    double dx = x[0] - p.x, dy = x[1] - p.y, dir = std::atan2(dy, dx), len = std::hypot(dx, dy);
    w.push_back({ref::wrap(dir - p.theta - r1), len - t, ref::wrap(x[2] - dir - r2)});
  }
  static const char * what[3] = {"first turn", "distance", "second turn"};
  double mean[3] = {0, 0, 0}, var[3] = {0, 0, 0};
  for (auto & x : w)
    for (int i = 0; i < 3; ++i)
    {
      mean[i] += x[i] / n;
      var[i] += x[i] * x[i] / n;
    }
  for (int i = 0; i < 3; ++i)
  {
    // the cloud was drawn from particles that were drawn themselves
    CHECK_NEAR(mean[i], 0, 7 * std::sqrt(2 * want[i] / n) + 2e-5, "mean error of the " << what[i]);
    CHECK_NEAR(var[i], want[i], 0.3 * want[i] + 1e-8, "variance of the " << what[i]);
  }
  if (noisy >= 2) c.nontrivial();
}

PBT_TEST(C35, evidence, 2500, 50000, "a pose with a spread, a motion without noise, and a scan that fits best somewhere near: 4000 particles against the product of both; non-trivial: the scan moves the mean by more than 0.1 m")
{
  begin(c);
  const int n = 4000;
  Config f = filter_config(c, n);
  Sim s(f);
  s.odom = gen::pose(c, 20);
  s.stamp = 1;
  Pose2d p = gen::pose(c, 5);
  p.theta = ref::wrap(p.theta);
  double sd[3] = {c.real(0.2, 1), 0, 0};
  sd[1] = c.real(0.2, 1);
  tell_pose(s, p, sd);
  Pose2d d(c.real(0.2, 1), c.coord(0.5), c.coord(2));
  s.odom = compose(s.odom, d);
  Pose2d at = compose(p, d);
  double b = c.real(0.4, 1), mx = at.x + c.real(-0.6, 0.6), my = at.y + c.real(-0.6, 0.6), scale = c.pick(std::vector<double>{1.0, 1e-6, 100.0});
  script().weight = [&](const Pose2d & q) { return scale * exp(-0.5 * ((q.x - mx) * (q.x - mx) + (q.y - my) * (q.y - my)) / (b * b)); };
  scan(s, c, 1 + c.below(3));
  c.note << f.show() << " deviations " << sd[0] << " " << sd[1] << " fit " << b << " at " << mx - at.x << " " << my - at.y;
  auto v = particles(s);
  CHECK(v.size() == n, v.size() << " particles of " << n);
  double mean[2], var[2], m[2] = {mx, my}, c0[2] = {at.x, at.y};
  auto q = spread(v, {at.x, at.y, at.theta});
  bool far = false;
  for (int i = 0; i < 2; ++i)
  {
    double k = sd[i] * sd[i] / (sd[i] * sd[i] + b * b);
    mean[i] = k * (m[i] - c0[i]);
    var[i] = k * b * b;
    CHECK_NEAR(q.mean[i], mean[i], 0.2 * std::sqrt(var[i]), "mean " << names[i] << " after a scan");
    CHECK(q.var[i] > 0.7 * var[i] && q.var[i] < 1.4 * var[i], "variance of " << names[i] << " after a scan is " << q.var[i] << ", expected " << var[i]);
    far = far || std::fabs(mean[i]) > 0.1;
  }
  CHECK_NEAR(q.mean[2], 0, 1e-4, "heading after a scan");
  // the pose of the robot is the mean of the cloud that it publishes
  s.advance(0.5);
  Pose2d robot;
  CHECK(s.robot_by_tf(s.odom, robot), "no transform");
  CHECK_NEAR(robot.x, at.x + q.mean[0], 1e-5, "the robot is not at the mean of the cloud");
  CHECK_NEAR(robot.y, at.y + q.mean[1], 1e-5, "the robot is not at the mean of the cloud");
  if (far) c.nontrivial();
}

PBT_TEST(C35, number, 2500, 50000, "poses with any spread and scans for filters of different sizes and KLD parameters: the number of particles against the occupied bins of the cloud; non-trivial: the number is strictly between minimum and maximum")
{
  begin(c);
  Config f = filter_config(c, 1);
  f.min_particles = static_cast<int>(1 + c.below(200));
  f.max_particles = f.min_particles + static_cast<int>(c.below(3000));
  f.kld_err = c.pick(std::vector<double>{0.01, 0.05, 0.002, 0.2});
  f.kld_z = c.pick(std::vector<double>{2.3, 0.5, 3.5});
  Sim s(f);
  s.odom = gen::pose(c, 20);
  s.stamp = 1;
  c.note << f.show() << " " << f.min_particles << " to " << f.max_particles << " err " << f.kld_err << " z " << f.kld_z << ":";
  const std::vector<double> sds{0.5, 0.0, 0.1, 1.5, 0.05};
  Pose2d p = gen::pose(c, 5);
  p.theta = ref::wrap(p.theta);
  double sd[3] = {c.pick(sds), c.pick(sds), std::min(0.5, c.pick(sds))};
  tell_pose(s, p, sd);
  CHECK(s.cloud().poses.size() >= static_cast<size_t>(f.min_particles) && s.cloud().poses.size() <= static_cast<size_t>(f.max_particles), "number of particles after a pose");
  for (size_t k = 0, m = 1 + c.below(3); k < m; ++k)
  {
    s.odom = compose(s.odom, Pose2d(c.real(0.2, 1), 0, c.coord(1)));
    scan(s, c, 2);
    auto v = particles(s);
    size_t most = static_cast<size_t>(f.max_particles), least = static_cast<size_t>(f.min_particles);
    std::set<std::array<long, 3>> bins, fewer;
    bool edge = false;
    for (size_t i = 0; i < v.size(); ++i)
    {
      double b[3] = {v[i][0] / 0.5, v[i][1] / 0.5, v[i][2] / 0.2671};
      std::array<long, 3> key;
      for (int j = 0; j < 3; ++j)
      {
        key[j] = std::lround(std::floor(b[j]));
        double fr = b[j] - std::floor(b[j]);
        edge = edge || fr < 1e-9 || fr > 1 - 1e-9;
      }
      bins.insert(key);
      if (i + 1 < v.size()) fewer = bins;
    }
    c.note << " " << v.size() << " in " << bins.size();
    CHECK(v.size() >= least && v.size() <= most, v.size() << " particles");
    if (edge) continue;
    auto need = [&](size_t bins_) { return std::min<double>(most, bins_ > 1 ? std::max<double>(least, kld_bound(bins_, f.kld_err, f.kld_z)) : static_cast<double>(most)); };
    double now = need(bins.size());
    CHECK(v.size() >= now - 1 - 1e-9 * now, v.size() << " particles with " << bins.size() << " occupied bins: " << now << " are needed");
    if (v.size() > least) CHECK(v.size() - 1 < need(fewer.size()) + 1e-9 * now + 1, v.size() << " particles with " << bins.size() << " occupied bins: " << now << " are enough");
    if (v.size() > least && v.size() < most) c.nontrivial();
  }
}
