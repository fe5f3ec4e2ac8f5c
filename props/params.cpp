// C38: parameters of the scan matchers and of transforms, under their documented names
#include "building.hpp"
#include "matching.hpp"
using namespace node;

namespace
{
matching::Parameters matcher_parameters(Case & c)
{
  matching::Parameters p;
  p.resolution = c.pick(std::vector<double>{0.25, 0.5, 0.4, 1.0});
  auto window = [&](double & res, double & size) {
      res = c.pick(std::vector<double>{0.01, 0.02, 0.03});
      size = res * (static_cast<double>(1 + c.below(3)) + c.real(0.1, 0.9));
    };
  window(p.linear_res, p.linear_size);
  window(p.angular_res, p.angular_size);
  p.beams = static_cast<int>(c.pick(std::vector<int>{30, 15, 60, 7}));
  return p;
}
// Some parameters may be left to their documented defaults
void set(rclcpp::NodeOptions & o, const std::string & name, const matching::Parameters & p)
{
  o.set(name + ".ndt_resolution", p.resolution).set(name + ".search_angular_resolution", p.angular_res).set(name + ".search_angular_size", p.angular_size)
  .set(name + ".search_linear_resolution", p.linear_res).set(name + ".search_linear_size", p.linear_size).set(name + ".laser_max_beams", p.beams);
}
matching::ScanPtr stored(const Map::S & s) { return matching::scan(s.id, s.pose, s.points); }
// What a matcher with these parameters says about a scan here, in a map of these scans
Pose2d answer(const matching::Parameters & p, const matching::Scans & map, const Pose2d & at, const matching::Points & points)
{
  auto m = matching::make(p);
  if (!map.empty()) m->addScans(map.begin(), map.end());
  Pose2d d;
  Eigen::Matrix3d covariance;
  m->matchScan(matching::scan(999, at, points), d, covariance);
  return d;
}
// Has `got` the same score as the `want`ed correction, and is it a step of the window?
bool as_good(const matching::Parameters & p, const matching::Scans & map, const Pose2d & at, const matching::Points & points, const Pose2d & got, const Pose2d & want, double tol = 1e-9)
{
  if (map.empty()) return false;
  auto m = matching::make(p);
  m->addScans(map.begin(), map.end());
  matching::Points used;
  matching::used_points(points, p.beams, used);
  auto score = [&](const Pose2d & d) { return m->scorePoints(used, Pose2d(at.x + d.x, at.y + d.y, at.theta + d.theta)); };
  auto step = [](double v, double size, double res) {
      double k = (v + size) / res;
      return k > -1e-4 && v < size + 1e-6 && std::fabs(k - std::round(k)) < 1e-4;
    };
  return std::fabs(score(got) - score(want)) < tol && step(got.x, p.linear_size, p.linear_res) && step(got.y, p.linear_size, p.linear_res) && step(got.theta, p.angular_size, p.angular_res);
}
Pose2d moved(const Pose2d & from, const Pose2d & to) { return Pose2d(to.x - from.x, to.y - from.y, ref::wrap(to.theta - from.theta)); }
}  // namespace

PBT_TEST(C38, matchers, 1500, 40000, "a robot with wrong odometry in a room, mapping with loop closures or localising, with different parameters of the local and the global matcher; every correction compared with that of a matcher of the harness that has the parameters, and the scans of the map before; "
         "non-trivial: a correction that the other matcher would not have made")
{
  begin(c);
  Building b(c);
  Config f;
  f.ndt = true;
  f.mapping = c.chance(65);
  f.rolling = static_cast<int>(c.pick(std::vector<int>{1, 3, 2, 10}));
  f.search = c.chance(60) ? 3 : 0;
  f.search_limit = 1;
  f.node_limit = 1000;
  f.travel = 0.1;
  f.max_range = c.pick(std::vector<double>{-1, 4, 2.5});
  auto local = matcher_parameters(c), global = matcher_parameters(c);
  bool unset = c.chance(30), documented = c.chance(20);
  if (documented) (c.chance(50) ? local : global).resolution = 0.25;
  const double message_range = c.pick(std::vector<double>{10, 6, 3});
  local.range = global.range = f.max_range > 0 ? f.max_range : message_range;
  f.more = [&](rclcpp::NodeOptions & o) {
      set(o, "local_scan_matcher", local);
      set(o, "global_scan_matcher", global);
      // (not given, which means the same)
      if (unset)
      {
        o.overrides_.erase("scan_matcher_type");
        if (f.max_range < 0) o.overrides_.erase("max_range");
      }
    };
  Robot r(c, b, f);
  r.beams = static_cast<int>(c.pick(std::vector<int>{60, 90, 120}));
  r.sweep = 0;
  r.inverted = false;
  if (!f.mapping)
  {
    f.map_file = "building";
    Graph g(f.barycenter);
    for (size_t k = 0, n = 2 + c.below(4); k < n; ++k)
    {
      r.place();
      auto s = std::make_shared<Scan>(k);
      s->setPose(r.truth);
      s->setPoints(r.points());
      g.scans.push_back(s);
    }
    g.save(f.map_file);
    r.place();
  }
  r.odom = Pose2d(c.coord(5), c.coord(5), c.heading());
  Sim s(f);
  s.mounting = r.mounting();
  c.note << f.show() << " range " << f.max_range << "; local " << local.show() << "; global " << global.show();
  const double linear = 0.7 * (f.mapping ? local : global).linear_size, angular = 0.7 * (f.mapping ? local : global).angular_size;
  Laser sent;
  auto send = [&] {
      s.odom = r.odom;
      sent = r.see(Pose2d());
      sent.range_max = static_cast<float>(message_range);
      s.send(sent);
    };
  Pose2d prev_odom, prev_robot;
  if (!f.mapping)
  {
    s.odom = r.odom;
    prev_odom = r.odom;
    prev_robot = r.truth;
    prev_robot.theta = ref::wrap(prev_robot.theta);
    s.pose(prev_robot, 0.01, 0.01, 0.01);
  }
  size_t telling = 0, closures = 0;
  for (size_t k = 0, n = 2 + c.below(10); k < n; ++k)
  {
    if (k || !f.mapping) r.drive(linear, angular);
    Map before = s.map();
    Pose2d predicted = before.scans.empty() ? Pose2d() : compose(prev_robot, between(prev_odom, r.odom));
    predicted.theta = ref::wrap(predicted.theta);
    send();
    Map after = s.map();
    Pose2d got;
    matching::Scans map;
    matching::Points points;
    if (f.mapping)
    {
      CHECK(after.scans.size() == before.scans.size() + 1, "a scan was not mapped");
      got = after.scans.back().pose;
      points = after.scans.back().points;
      for (size_t i = before.scans.size() - std::min<size_t>(before.scans.size(), f.rolling); i < before.scans.size(); ++i) map.push_back(stored(before.scans[i]));
    }
    else
    {
      s.advance(0.3);
      CHECK(s.robot_by_tf(r.odom, got), "no transform");
      for (auto & v : before.scans) map.push_back(stored(v));
      for (size_t i = 0; i < sent.ranges.size(); ++i)
      {
        if (!std::isfinite(sent.ranges[i]) || sent.ranges[i] < sent.range_min || sent.ranges[i] > local.range) continue;
        double a = sent.angle_min + static_cast<float>(i) * sent.angle_increment;
        Pose2d p = compose(r.mount, Pose2d(cos(a) * sent.ranges[i], sin(a) * sent.ranges[i], 0));
        points.emplace_back(p.x, p.y);
      }
    }
    auto & asked = f.mapping ? local : global;
    if (!map.empty())
    {
      Pose2d d = answer(asked, map, predicted, points), e = moved(predicted, got);
      double tol = f.mapping ? 1e-9 : 1e-7;      // (through a transform)
      CHECK(near(d, e, tol) || as_good(asked, map, predicted, points, e, d, f.mapping ? 1e-9 : 1e-5),
            "scan " << k << " was moved by " << show(e) << ", a matcher with the parameters of the " << (f.mapping ? "local" : "global") << " one moves it by " << show(d));
      if (!near(answer(f.mapping ? global : local, map, predicted, points), d, 1e-7)) ++telling;
    }
    prev_robot = got;
    prev_odom = r.odom;
    // A loop closure
    s.advance(1.1);
    Map closed = s.map();
    if (closed.constraints.size() > after.constraints.size())
    {
      CHECK(closed.constraints.size() == after.constraints.size() + 1, "more than one closure with a limit of one");
      auto & k = closed.constraints.back();
      CHECK(k.end == after.scans.size() - 1 && k.begin < k.end, "a closure from " << k.begin << " to " << k.end);
      size_t i = k.begin;
      Pose2d e = moved(after.scans[k.end].pose, closed.scans[k.end].pose);
      auto & scan = after.scans[k.end];
      bool ok = false;
      Pose2d d;
      for (size_t from = i ? i - 1 : i; from <= i; ++from)
        for (size_t to = i; to <= i + 1 && to < k.end; ++to)
        {
          matching::Scans region;
          for (size_t j = from; j <= to; ++j) region.push_back(stored(after.scans[j]));
          d = answer(global, region, scan.pose, scan.points);
          ok = ok || near(d, e, 1e-9) || as_good(global, region, scan.pose, scan.points, e, d);
          if (!near(answer(local, region, scan.pose, scan.points), d, 1e-9)) ++telling;
        }
      if (i)
      {
        matching::Scans region{stored(after.scans[i - 1])};
        d = answer(global, region, scan.pose, scan.points);
        ok = ok || near(d, e, 1e-9) || as_good(global, region, scan.pose, scan.points, e, d);
      }
      CHECK(ok, "the closure from " << i << " moved scan " << k.end << " by " << show(e) << ", not as a matcher with the parameters of the global one");
      ++closures;
    }
  }
  if (telling) c.nontrivial();
  if (closures) c.label("closures");
  c.label(f.mapping ? "mapping" : "localising");
}

PBT_TEST(C38, timeouts, 4000, 100000, "drives on which the transforms of the odometry become available late, scans arrive late and last a while, with any transform_timeout: a scan is processed when each of its two transforms arrives within that time, and no more time is spent waiting; "
         "non-trivial: one scan was processed that had to wait, and one was given up")
{
  begin(c);
  Config f;
  f.filter = false;
  f.mapping = true;
  f.timeout = c.pick(std::vector<double>{0.2, 0.5, 1.0, 0.05, 0.0, 2.5});
  f.travel = 0.1;
  Sim s(f);
  c.note << "timeout " << f.timeout;
  stub::tf_waits() = true;
  int64_t delay = 0;
  stub::tf_lookup() = [&](const std::string & t, const std::string & from, int64_t ns, geometry_msgs::msg::Transform & out) {
      if (t == f.odom && ns != 0 && stub::now_ns() < ns + delay) return false;
      return s.lookup(t, from, ns, out);
    };
  size_t scans = 0, waited = 0, given_up = 0;
  auto ns = [](double t) { return static_cast<int64_t>(std::llround(t * 1e9)); };
  for (size_t k = 0, n = 2 + c.below(12); k < n; ++k)
  {
    if (k) s.odom = compose(s.odom, Pose2d(c.real(0.15, 0.5), 0, c.coord(1)));
    // In units of the timeout, away from it
    auto away = [&] { return c.pick(std::vector<double>{0, 0.3, 0.7, 1.5, 4, 1.3}); };
    const double unit = f.timeout > 0 ? f.timeout : 0.2;
    double late = c.chance(40) ? unit * away() : 0, lasts = c.chance(40) ? unit * away() : 0;
    delay = ns(unit * away() + (c.chance(20) ? c.real(-0.1, 0.1) * unit : 0));
    if (delay < 0) delay = 0;
    auto m = s.laser({1, 2, 3, 2, 1});
    int64_t now = stub::now_ns(), stamp = now - ns(late);
    m.header.stamp = rclcpp::Time(stamp);
    m.time_increment = static_cast<float>(lasts / 4);
    int64_t end = stamp + static_cast<int64_t>(4.0 * static_cast<double>(m.time_increment) * 1e9);
    int64_t first = std::max(now, stamp + delay), second = std::max(first, end + delay);
    const int64_t limit = ns(f.timeout), slack = 25000000;
    if (std::abs(first - now - limit) < slack || std::abs(second - first - limit) < slack) continue;
    bool process = first - now < limit || first == now, wait = first > now || second > first;
    process = process && (second - first < limit || second == first);
    c.note << "; scan of " << pbt::shortstr(lasts) << " s, " << pbt::shortstr(late) << " s late, transforms " << pbt::shortstr(1e-9 * static_cast<double>(delay)) << " s" << (process ? "" : ": given up");
    s.send(m);
    int64_t took = stub::now_ns() - now;
    size_t got = s.map().scans.size();
    if (process)
    {
      CHECK(got == scans + 1, "a scan was given up although its transforms arrived after " << 1e-9 * static_cast<double>(first - now) << " s and " << 1e-9 * static_cast<double>(second - first) << " s, with a timeout of " << f.timeout << " s");
      CHECK(took <= second - now + 2 * slack, "waiting took " << 1e-9 * static_cast<double>(took) << " s");
      ++scans;
      if (wait) ++waited;
    }
    else
    {
      CHECK(got == scans, "a scan was processed although its transforms arrived after " << 1e-9 * static_cast<double>(first - now) << " s and " << 1e-9 * static_cast<double>(second - first) << " s, with a timeout of " << f.timeout << " s");
      CHECK(took <= 2 * limit + 2 * slack, "waiting took " << 1e-9 * static_cast<double>(took) << " s, with a timeout of " << f.timeout << " s");
      ++given_up;
    }
    s.advance(3 * unit);
  }
  if (waited && given_up) c.nontrivial();
}
