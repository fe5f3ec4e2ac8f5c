// Histories of the node with a model of what it should know
#pragma once
#include "node.hpp"
#include <ndt_2d/motion_model.hpp>

namespace node
{
enum : unsigned { kGate = 1, kGraph = 2, kTf = 4, kLocal = 8, kAll = 15 };

inline Eigen::Vector2d place_of(const Map::S & s, bool bary)
{
  if (!bary || s.points.empty()) return Eigen::Vector2d(s.pose.x, s.pose.y);
  double x = 0, y = 0;
  for (auto & q : s.points) { x += q.x; y += q.y; }
  Pose2d p = compose(s.pose, Pose2d(x / static_cast<double>(s.points.size()), y / static_cast<double>(s.points.size()), 0));
  return Eigen::Vector2d(p.x, p.y);
}

// Is the pose of b in the frame of a the transform of the constraint?
inline void check_relative(const Map::C & k, const Pose2d & a, const Pose2d & b, const std::string & what)
{
  Pose2d d = between(a, b);
  double m = 1 + std::fabs(a.x) + std::fabs(a.y) + std::fabs(b.x) + std::fabs(b.y), tol = 1e-12 * m + 1e-12;
  CHECK(pbt::near(k.t(0), d.x, tol) && pbt::near(k.t(1), d.y, tol) && pbt::near(ref::wrap(k.t(2) - d.theta), 0, 1e-12),
        what << ": the constraint says " << k.t(0) << " " << k.t(1) << " " << k.t(2) << ", the poses say " << show(d));
}
// Information against the covariance it comes from, when that has an inverse
inline void check_information(const Map::C & k, const Eigen::Matrix3d & cov, const std::string & what)
{
  CHECK(k.info.allFinite(), what << ": information is not finite");
  Eigen::JacobiSVD<Eigen::Matrix3d> svd(cov);
  double hi = svd.singularValues()(0), lo = svd.singularValues()(2);
  if (lo < 1e-9 || hi / lo > 1e8) return;
  double off = (k.info * cov - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
  CHECK(off < 1e-6, what << ": information is not the inverse covariance, off by " << off);
}
inline void check_well_formed(const Map & m, const std::string & what)
{
  for (size_t i = 0; i < m.scans.size(); ++i)
  {
    auto & s = m.scans[i];
    CHECK(s.id == i, what << ": scan " << i << " has id " << s.id);
    CHECK(std::isfinite(s.pose.x) && std::isfinite(s.pose.y) && std::isfinite(s.pose.theta), what << ": pose of scan " << i << " is " << show(s.pose));
    for (auto & p : s.points) CHECK(std::isfinite(p.x) && std::isfinite(p.y), what << ": a point of scan " << i << " is not finite");
  }
  std::vector<bool> joined(m.scans.size(), false);
  for (size_t i = 0; i < m.constraints.size(); ++i)
  {
    auto & k = m.constraints[i];
    CHECK(k.begin < m.scans.size() && k.end < m.scans.size() && k.begin != k.end, what << ": constraint " << i << " joins " << k.begin << " to " << k.end << " of " << m.scans.size() << " scans");
    CHECK(k.t.allFinite() && k.info.allFinite(), what << ": constraint " << i << " is not finite");
    if (!k.sw) joined[std::max(k.begin, k.end)] = true;
  }
  for (size_t i = 1; i < m.scans.size(); ++i) CHECK(joined[i], what << ": scan " << i << " is not joined to an earlier one");
}

// A map as mapping makes them
inline void write_map(Case & c, const std::string & name, size_t scans, double step, bool bary)
{
  Graph g(bary);
  Pose2d p = gen::pose(c, 3);
  for (size_t i = 0; i < scans; ++i)
  {
    auto s = std::make_shared<Scan>(i);
    s->setPose(p);
    std::vector<Point> pts;
    size_t n = c.chance(10) ? 0 : 1 + c.below(6);
    for (size_t j = 0; j < n; ++j) { double x = c.real(0.5, 3); pts.emplace_back(x, c.real(-2, 2)); }
    s->setPoints(pts);
    g.scans.push_back(s);
    if (i)
    {
      Eigen::Matrix3d cov = Eigen::Vector3d(0.01, 0.01, 0.01).asDiagonal();
      auto k = std::make_shared<Constraint>();
      Pose2d d = between(g.scans[i - 1]->getPose(), p);
      k->begin = i - 1;
      k->end = i;
      k->transform = Eigen::Vector3d(d.x, d.y, d.theta);
      k->information = cov.inverse();
      k->switchable = false;
      g.constraints.push_back(k);
    }
    p = compose(p, Pose2d(c.real(-step, step), c.real(-step, step), c.coord(0.8)));
  }
  g.save(name);
}

inline Config any_config(Case & c, bool filter, bool mapping)
{
  Config f;
  f.filter = filter;
  f.mapping = mapping;
  f.rolling = static_cast<int>(c.pick(std::vector<int>{10, 2, 1, 3, 5, 12, 15, 0}));
  f.travel = c.pick(std::vector<double>{0.1, 0.3, 0.0, 0.05, 1.0});
  f.rotation = c.pick(std::vector<double>{1.0, 0.2, 0.0, 0.5, 3.0});
  f.barycenter = c.chance(50);
  f.search = 0;
  f.max_range = c.chance(50) ? 10 : -1;
  f.resolution = 0.25;
  if (c.chance(20)) { f.robot = "base"; f.odom = "wheel/odom"; }
  return f;
}

// ---- A history, with a model of what the node should know
class Play
{
public:
  Play(Case & c_, const Config & f, unsigned checks_) : c(c_), s(f), checks(checks_)
  {
    mapping = f.mapping && !f.filter;
    enabled = f.mapping;
    localised = f.map_file.empty();
    s.odom = gen::pose(c, 20);
    s.mounting.translation.x = 0.2;
    s.stamp = 0;
    if (!f.map_file.empty()) scans = s.map().scans.size();
    c.note << f.show();
  }

  std::vector<float> beams()
  {
    std::vector<float> r;
    size_t n = c.chance(15) ? 0 : 1 + c.below(12);
    for (size_t i = 0; i < n; ++i) r.push_back(c.chance(10) ? std::numeric_limits<float>::quiet_NaN() : static_cast<float>(c.real(0.5, 4)));
    return r;
  }
  // Moves the robot to about the limits of the gate
  void move()
  {
    double t = s.cfg.travel > 0 ? s.cfg.travel : 0.1, r = s.cfg.rotation > 0 ? s.cfg.rotation : 0.1;
    double d = 0, h = 0;
    switch (c.weighted({4, 2, 2, 1, 1}))
    {
      case 0: d = t * c.real(1.0, 4); h = c.coord(0.5); break;
      case 1: d = t * c.real(0.5, 1.1); h = c.coord(r); break;
      case 2: h = r * c.real(0.7, 1.5) * (c.chance(50) ? 1 : -1); break;
      case 3: d = t * c.real(0, 0.9); h = r * c.real(-0.9, 0.9); break;
      default: d = c.real(0, 2); h = c.angle();
    }
    double a = c.chance(50) ? 0 : c.angle();
    Pose2d from = s.odom;
    for (int k = 0; k < 10; ++k)
    {
      s.odom = compose(from, Pose2d(d * cos(a), d * sin(a), h));
      s.odom.theta = ref::wrap(s.odom.theta);
      double dist = std::hypot(s.odom.x - prev_odom.x, s.odom.y - prev_odom.y), turn = std::fabs(ref::wrap(s.odom.theta - prev_odom.theta));
      if (std::fabs(dist - s.cfg.travel) > 1e-6 && std::fabs(turn - s.cfg.rotation) > 1e-6 && std::fabs(turn - M_PI) > 1e-6) break;
      d += 1e-4;
      h += 1e-4;
    }
    tell("move " + pbt::shortstr(d) + "," + pbt::shortstr(h));
  }
  bool gate() const
  {
    double dist = std::hypot(s.odom.x - prev_odom.x, s.odom.y - prev_odom.y), turn = std::fabs(ref::wrap(s.odom.theta - prev_odom.theta));
    if (s.cfg.travel <= 0 || s.cfg.rotation <= 0) return true;
    return dist >= s.cfg.travel || turn >= s.cfg.rotation;
  }
  Pose2d prediction() const
  {
    if (!scans) return Pose2d();
    return compose(prev_robot, between(prev_odom, s.odom));
  }

  // A laser scan arrives. True: it should be processed
  bool laser(bool faults = true)
  {
    s.odom_known = s.end_known = s.laser_known = true;
    int fault = faults && c.chance(8) ? static_cast<int>(1 + c.below(3)) : 0;
    if (fault == 1) s.odom_known = false;
    if (fault == 2) s.end_known = false;
    if (fault == 3) s.laser_known = false;
    auto r = beams();
    Laser m = s.laser(r);
    m.time_increment = c.chance(30) ? 0.001f : 0.0f;
    if (fault == 2) { m.ranges.resize(std::max<size_t>(2, m.ranges.size()), 1.0f); m.time_increment = 0.01f; }
    if (c.chance(20)) s.during = Pose2d(c.coord(1), 0, c.coord(1));
    else s.during = Pose2d();
    size_t usable = 0;
    for (auto v : m.ranges) usable += std::isfinite(v) && v >= m.range_min && v <= 10;
    bool first = !laser_seen;
    bool process = localised && s.odom_known && s.end_known && (s.laser_known || laser_seen) && (!scans || gate());
    if (s.laser_known) laser_seen = true;
    Pose2d predicted = prediction();
    tell("scan of " + std::to_string(usable) + (fault ? " fault " + std::to_string(fault) : "") + (process ? "" : " ignored"));
    Map before = s.map();
    size_t clouds = s.clouds(), sent = stub::tf_sent().size();
    drain();
    s.slow = slow && c.chance(20) ? 0.3 : 0;
    s.send(m);
    s.slow = 0;
    if (stub::tf_sent().size() > sent) ++meanwhile;
    check_tf(sent, 0);                 // of the estimate before
    s.odom_known = s.end_known = s.laser_known = true;
    s.during = Pose2d();
    Map after = s.map();
    auto events = drain();
    (void)first;
    const char * who = process ? "a scan to be processed" : "a scan to be ignored";
    if (checks & kGraph) check_well_formed(after, who);
    if (!process)
    {
      check_same(before, after, who);
      CHECK(s.clouds() == clouds, who << " moved the particles");
      ++ignored;
      return false;
    }
    ++processed;
    last_usable = usable;
    Event match;
    bool matched = find(events, s.cfg.filter ? 'p' : 'm', match);
    if (s.cfg.filter)
    {
      if (checks & (kLocal | kGraph)) check_same(before, after, "filtering");
      CHECK(s.clouds() == clouds + 1, who << " gave " << s.clouds() - clouds << " particle clouds");
      predicted_robot = predicted;
      prev_robot = mean_of(s.cloud());
      if (checks & kGate)
      {
        bool exact = exact_filter;
        Pose2d moved = between(prev_odom, s.odom);
        double tol = 1e-4;
        if (std::hypot(moved.x, moved.y) < 0.0101) tol += 0.021;        // the motion model knows no direction for these
        if (exact) CHECK(near(prev_robot, predicted, tol), "the filter is at " << show(prev_robot) << ", the odometry predicts " << show(predicted));
      }
      if ((checks & kLocal) && !s.cfg.ndt && usable) check_full_map(matched, match, before, "measuring");
    }
    else if (mapping)
    {
      Pose2d expected = predicted;
      if (before.scans.empty())
      {
        check_appended(before, after, 1, 0, "the first scan");
      }
      else
      {
        check_appended(before, after, 1, 1, "mapping");
        auto & k = after.constraints.back();
        size_t n = before.scans.size();
        if (checks & kGraph)
        {
          CHECK(k.begin == n - 1 && k.end == n, "scan " << n << " is joined by a constraint from " << k.begin << " to " << k.end);
          CHECK(!k.sw, "the constraint of scan " << n << " to its predecessor is switchable");
          check_relative(k, after.scans[n - 1].pose, after.scans[n].pose, "scan " + std::to_string(n));
        }
        if (!s.cfg.ndt)
        {
          CHECK(matched, "scan " << n << " was not matched");
          typical = 0.95 * typical + 0.05 * match.answer.score;
          expected.x += match.answer.correction.x;
          expected.y += match.answer.correction.y;
          expected.theta += match.answer.correction.theta;
          if (checks & kGraph)
          {
            size_t want = std::min<size_t>(n, s.cfg.rolling);
            CHECK(match.map.size() == want, "scan " << n << " was matched against " << match.map.size() << " scans, with a rolling depth of " << s.cfg.rolling);
            for (size_t i = 0; i < want; ++i)
              CHECK(match.map[i] == n - want + i, "scan " << n << " was matched against scan " << match.map[i]);
            for (size_t i = 0; i < want; ++i)
              CHECK(same(match.map_poses[i], before.scans[match.map[i]].pose), "scan " << n << " was matched against scan " << match.map[i] << " at " << show(match.map_poses[i]));
            check_information(k, match.answer.covariance, "scan " + std::to_string(n));
          }
          if (checks & kGate) CHECK(near(match.pose, predicted, 1e-9 * (1 + reach(predicted))), "scan " << n << " is matched at " << show(match.pose) << ", the odometry predicts " << show(predicted));
        }
      }
      Pose2d got = after.scans.back().pose;
      double tol = 1e-9 * (1 + reach(expected));
      if (checks & kGate)
      {
        if (!s.cfg.ndt || !usable)
          CHECK(near(got, expected, tol), "scan " << before.scans.size() << " is placed at " << show(got) << ", expected " << show(expected));
        else
          CHECK(near(got, predicted, s.cfg.window * 2), "scan " << before.scans.size() << " is placed at " << show(got) << ", outside the search window around " << show(predicted));
      }
      if (checks & kGraph) CHECK(after.scans.back().points.size() == usable, after.scans.back().points.size() << " points from " << usable << " beams");
      prev_robot = got;
      ++scans;
      mapped = true;
    }
    else
    {
      if (checks & (kLocal | kGraph)) check_same(before, after, "localising");
      Pose2d expected = predicted;
      if (!s.cfg.ndt)
      {
        CHECK(matched, "the scan was not matched");
        if (checks & kLocal) check_full_map(matched, match, before, "localising");
        expected.x += match.answer.correction.x;
        expected.y += match.answer.correction.y;
        expected.theta += match.answer.correction.theta;
        prev_robot = expected;
      }
      else
      {
        // by the transform
        prev_robot = predicted;
        if (usable) ndt_estimate = true;
      }
    }
    prev_odom = s.odom;
    estimated = true;
    return true;
  }
  void check_full_map(bool matched, const Event & e, const Map & map, const std::string & what)
  {
    CHECK(matched, what << ": the map was not asked");
    CHECK(e.map.size() == map.scans.size(), what << " against " << e.map.size() << " scans of a map of " << map.scans.size());
    for (size_t i = 0; i < e.map.size(); ++i)
      CHECK(e.map[i] == map.scans[i].id && same(e.map_poses[i], map.scans[i].pose), what << ": scan " << i << " of the matcher is " << e.map[i] << " at " << show(e.map_poses[i])
            << ", of the map " << map.scans[i].id << " at " << show(map.scans[i].pose));
  }

  // Someone tells the robot where it is
  void pose()
  {
    bool lost = c.chance(5), foreign = c.chance(8);
    s.odom_known = !lost;
    Map before = s.map();
    Pose2d p = gen::pose(c, 5);
    if (!before.scans.empty() && c.chance(90))
    {
      auto & near_by = before.scans[c.below(before.scans.size())].pose;
      p = compose(near_by, Pose2d(c.coord(1), c.coord(1), c.angle()));
    }
    if (c.chance(3)) p.x += 1000;
    p.theta = ref::wrap(p.theta);
    double v[3];
    for (double & x : v) x = exact_filter ? 0 : c.pick(std::vector<double>{0.25, 0.0685, 0.01, 1e-6, 0});
    double closest = 1e300;
    for (auto & q : before.scans) closest = std::min(closest, (place_of(q, s.cfg.barycenter) - Eigen::Vector2d(p.x, p.y)).norm());
    if (std::fabs(closest - 10) < 0.01) throw pbt::Discard();
    bool active = mapping && localised;
    bool accept = !active && !foreign && !lost && !(mapping && closest > 10);
    tell(std::string("pose") + (accept ? "" : " ignored") + (foreign ? " in another frame" : ""));
    size_t clouds = s.clouds(), sent = stub::tf_sent().size();
    s.slow = slow && c.chance(20) ? 0.3 : 0;
    s.pose(p, v[0], v[1], v[2], foreign ? (c.chance(50) ? s.cfg.odom : "/map2") : "map");
    s.odom_known = true;
    s.slow = 0;
    check_tf(sent, 0);
    Map after = s.map();
    if (checks & kGraph) check_well_formed(after, "a pose");
    if (!accept)
    {
      check_same(before, after, "a pose to be ignored");
      CHECK(s.clouds() == clouds, "a pose to be ignored moved the particles");
      return;
    }
    if (mapping)
    {
      check_appended(before, after, 1, 1, "a pose while mapping");
      auto & q = after.scans.back();
      auto & k = after.constraints.back();
      if (checks & kGraph)
      {
        CHECK(near(q.pose, p, 1e-9 * (1 + reach(p))), "the scan of a pose at " << show(p) << " is at " << show(q.pose));
        CHECK(q.points.empty(), "the scan of a pose has points");
        CHECK(!k.sw && std::max(k.begin, k.end) == before.scans.size() && std::min(k.begin, k.end) < before.scans.size(), "a pose is joined by a constraint from " << k.begin << " to " << k.end);
        check_relative(k, after.scans[k.begin].pose, after.scans[k.end].pose, "a pose");
        Eigen::Matrix3d cov = Eigen::Vector3d(v[0], v[1], v[2]).asDiagonal();
        check_information(k, cov, "a pose");
        double d = (place_of(after.scans[std::min(k.begin, k.end)], s.cfg.barycenter) - Eigen::Vector2d(p.x, p.y)).norm();
        CHECK(d <= closest + 1e-9, "a pose is joined to a scan " << d << " away, another is " << closest << " away");
      }
      ++scans;
    }
    else if (checks & (kGraph | kLocal)) check_same(before, after, "a pose while not mapping");
    if (s.cfg.filter) CHECK(s.clouds() == clouds + 1, "a pose gave " << s.clouds() - clouds << " particle clouds");
    prev_robot = p;
    // the filter is asked for its mean when a scan is processed
    prev_odom = s.odom;
    localised = estimated = true;
    ndt_estimate = false;
    ++poses;
  }

  void configure(int action, const std::string & file = "")
  {
    tell("request " + std::to_string(action));
    bool busy = world::pausing();
    Map before = s.map(), target = before;
    if (action & kLoad) target = copy(Graph(s.cfg.barycenter, file));
    s.call(action, file);
    if (action & kEnable) enabled = true;
    else if (action & kDisable) { enabled = false; localised = false; }
    mapping = enabled && !s.cfg.filter;
    if (action & kLoad)
    {
      localised = estimated = false;
      typical = -0.5;
      scans = target.scans.size();
      ndt_estimate = false;
    }
    world::settle();
    Map after = s.map();
    if (busy && !(action & kLoad) && (action & kDisable))
    {
      // The loop closure that was under way may have come to its end
      check_well_formed(after, "a request");
      CHECK(after.scans.size() == before.scans.size() && after.constraints.size() >= before.constraints.size(), "a request changed the scans");
    }
    else check_same(target, after, (action & kLoad) ? "loading" : "a request");
    if ((action & kSave) && !(action & kLoad))
    {
      Map saved = copy(Graph(s.cfg.barycenter, file));
      if (busy && (action & kDisable))
      {
        // Saved before or after that end
        check_well_formed(saved, "the saved file");
        CHECK(saved.scans.size() == after.scans.size() && saved.constraints.size() >= before.constraints.size() && saved.constraints.size() <= after.constraints.size(), "the saved file has " << saved.scans.size() << " scans of " << after.scans.size() << ", " << saved.constraints.size() << " constraints of " << before.constraints.size() << " to " << after.constraints.size());
      }
      else check_same(before, saved, "the saved file");
    }
  }

  // Time passes
  void advance(double t)
  {
    tell(pbt::shortstr(t) + " s");
    Map before = s.map();
    size_t sent = stub::tf_sent().size();
    s.advance(t);
    Map after = s.map();
    if (checks & kGraph) check_well_formed(after, "after a while");
    if (s.cfg.search <= 0 || !mapping) check_same(before, after, "after a while");
    check_tf(sent, t);
  }
  void check_tf(size_t sent, double t)
  {
    auto & all = stub::tf_sent();
    if (!(checks & (kTf | kGate))) return;
    if (checks & kTf)
    {
      if (!scans) CHECK(all.size() == sent, "a transform is broadcast without a map");
      else if (t >= 1) CHECK(all.size() > sent, "no transform broadcast in " << t << " s");
    }
    for (size_t i = sent; i < all.size(); ++i)
    {
      auto & m = all[i];
      auto & q = m.transform;
      if (checks & kTf)
      {
        CHECK(m.header.frame_id == "map" && m.child_frame_id == s.cfg.odom, "transform from " << m.header.frame_id << " to " << m.child_frame_id);
        CHECK(rclcpp::Time(m.header.stamp).nanoseconds() == stub::tf_sent_at()[i], "transform of time " << rclcpp::Time(m.header.stamp).nanoseconds() << " at " << stub::tf_sent_at()[i]);
        CHECK(q.translation.z == 0 && q.rotation.x == 0 && q.rotation.y == 0, "a transform off the plane");
        CHECK_NEAR(q.rotation.z * q.rotation.z + q.rotation.w * q.rotation.w, 1, 1e-9, "norm of the rotation");
      }
      if (!estimated) continue;
      Pose2d got = compose(Pose2d(q.translation.x, q.translation.y, 2 * std::atan2(q.rotation.z, q.rotation.w)), prev_odom);
      double tol = 1e-9 * (1 + reach(prev_odom) + reach(prev_robot)) + (s.cfg.filter ? 1e-6 : 0);
      if (ndt_estimate)
      {
        CHECK(near(got, prev_robot, 2 * s.cfg.window), "the transform puts the robot at " << show(got) << ", outside the search window around " << show(prev_robot));
        prev_robot = got;
        ndt_estimate = false;
      }
      else
        CHECK(near(got, prev_robot, tol), "the transform puts the robot at " << show(got) << ", the estimate is " << show(prev_robot) << " (odometry " << show(prev_odom) << ")");
      ++transforms;
    }
  }

  static double reach(const Pose2d & p) { return std::fabs(p.x) + std::fabs(p.y); }
  static Pose2d mean_of(const geometry_msgs::msg::PoseArray & a)
  {
    Pose2d m;
    double cs = 0, sn = 0, n = static_cast<double>(a.poses.size());
    for (auto & p : a.poses)
    {
      m.x += p.position.x / n;
      m.y += p.position.y / n;
      double t = 2 * std::atan2(p.orientation.z, p.orientation.w);
      cs += cos(t);
      sn += sin(t);
    }
    m.theta = std::atan2(sn, cs);
    return m;
  }
  static bool find(const std::vector<Event> & events, char op, Event & out)
  {
    for (size_t i = events.size(); i-- > 0; )
      if (events[i].op == op && !events[i].background)
      {
        out = events[i];
        return true;
      }
    return false;
  }
  // What matchers were asked since the last time; questions of the loop closure thread are kept
  std::vector<Event> drain()
  {
    std::vector<Event> front;
    for (auto & e : s.take_events())
    {
      if (e.background) background.push_back(e);
      else front.push_back(e);
    }
    return front;
  }
  void tell(const std::string & what) { c.note << "; " << what; }

  Case & c;
  Sim s;
  unsigned checks;
  bool mapping, enabled, localised, estimated = false, laser_seen = false, mapped = false, exact_filter = false, ndt_estimate = false;
  Pose2d prev_odom, prev_robot, predicted_robot;
  std::vector<Event> background;
  bool slow = false;                 // transforms and matches may take a while (without loop closures)
  size_t meanwhile = 0;              // callbacks during which transforms were broadcast
  double typical = -0.5;             // score of local matches, averaged
  size_t scans = 0, processed = 0, ignored = 0, poses = 0, transforms = 0, last_usable = 0;
};

inline void random_script(Case & c)
{
  Script & s = script();
  s.shift = c.pick(std::vector<double>{0.05, 0, 0.5});
  s.turn = c.pick(std::vector<double>{0.05, 0, 0.5});
}
}  // namespace node
