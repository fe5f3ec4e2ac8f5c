// C24: laser messages become points of the robot
#include "node.hpp"
#include <limits>
using namespace node;

namespace
{
struct Mounting
{
  Pose2d pose;                       // of the laser on the robot; its heading is that of its x axis
  bool inverted = false;
  double tilt = 0;
  std::string show() const { return node::show(pose) + (inverted ? " upside down" : "") + (tilt ? " tilted " + pbt::shortstr(tilt) : ""); }
};
tf2::Quaternion axis(double x, double y, double z, double a) { return tf2::Quaternion(x * sin(a / 2), y * sin(a / 2), z * sin(a / 2), cos(a / 2)); }
Mounting mount(Case & c, geometry_msgs::msg::Transform & t)
{
  Mounting m;
  m.pose = Pose2d(c.coord(1), c.coord(1), c.heading());
  m.inverted = c.chance(40);
  tf2::Quaternion q = axis(0, 0, 1, m.pose.theta);
  if (m.inverted)
  {
    // about its x axis, or about its y axis and turned round
    if (c.chance(50)) q = q * axis(1, 0, 0, c.chance(50) ? M_PI : -M_PI);
    else q = q * axis(0, 0, 1, M_PI) * axis(0, 1, 0, M_PI);
  }
  if (c.chance(10))
  {
    m.tilt = c.real(0, 0.08);
    q = q * (c.chance(50) ? axis(1, 0, 0, m.tilt) : axis(0, 1, 0, m.tilt));
  }
  t.translation.x = m.pose.x;
  t.translation.y = m.pose.y;
  t.translation.z = c.coord(1);
  t.rotation = tf2::toMsg(q);
  return m;
}

struct Beam { double range, angle; bool edge; };
// Where the points of a message are, in the frame of the robot at its start
std::vector<Eigen::Vector2d> project(const Laser & m, const Mounting & l, const Pose2d & during, double range_max)
{
  std::vector<Eigen::Vector2d> out;
  for (size_t i = 0; i < m.ranges.size(); ++i)
  {
    double r = m.ranges[i];
    if (!std::isfinite(r) || r < static_cast<double>(m.range_min) || r > range_max) continue;
    double a = static_cast<double>(m.angle_min) + static_cast<double>(i) * static_cast<double>(m.angle_increment);
    double b = l.pose.theta + (l.inverted ? -a : a);
    double x = l.pose.x + r * cos(b), y = l.pose.y + r * sin(b);
    double t = static_cast<double>(i) * static_cast<double>(m.time_increment);
    Pose2d d(during.x * t, during.y * t, during.theta * t);
    out.emplace_back(d.x + x * cos(d.theta) - y * sin(d.theta), d.y + x * sin(d.theta) + y * cos(d.theta));
  }
  return out;
}
// Each expected point is one of the points, and the other way round
void check_points(const std::vector<Point> & got, const std::vector<Eigen::Vector2d> & want, double tol, const std::string & what)
{
  CHECK(got.size() == want.size(), what << ": " << got.size() << " points, expected " << want.size());
  auto close = [&](size_t i, size_t j) { return pbt::near(got[i].x, want[j](0), tol) && pbt::near(got[i].y, want[j](1), tol); };
  size_t n = got.size();
  bool forward = true, backward = true;
  for (size_t i = 0; i < n; ++i)
  {
    forward = forward && close(i, i);
    backward = backward && close(i, n - 1 - i);
  }
  if (forward || backward) return;
  std::vector<bool> used(n, false);
  for (size_t j = 0; j < n; ++j)
  {
    size_t best = n;
    double bd = 1e300;
    for (size_t i = 0; i < n; ++i)
    {
      double d = std::hypot(got[i].x - want[j](0), got[i].y - want[j](1));
      if (!used[i] && d < bd) { bd = d; best = i; }
    }
    CHECK(best < n && close(best, j), what << ": no point at " << want[j](0) << ", " << want[j](1) << "; the nearest left is " << bd << " away");
    used[best] = true;
  }
}

struct Message { Laser m; Pose2d during; bool latch_only = false; };

Message message(Case & c, Sim & s, double range_max, bool latched)
{
  Message r;
  size_t n = c.chance(10) ? c.below(2) : c.rare(200) ? 400 + c.below(4000) : 1 + c.size(c.chance(10) ? 400 : 40);
  double reach = range_max > 0 ? range_max : 10;
  std::vector<float> ranges;
  for (size_t i = 0; i < n; ++i)
  {
    const float inf = std::numeric_limits<float>::infinity();
    switch (c.weighted({12, 1, 1, 1, 1, 1, 1, 1}))
    {
      case 7: ranges.push_back(c.pick(std::vector<float>{0.0f, 0.03f, 0.05f, -1.0f, 0.0499f, -0.001f, 0.3f})); break;
      case 1: ranges.push_back(std::numeric_limits<float>::quiet_NaN()); break;
      case 2: ranges.push_back(inf); break;
      case 3: ranges.push_back(-inf); break;
      case 4: ranges.push_back(static_cast<float>(reach * c.real(1.001, 3))); break;
      case 5: ranges.push_back(static_cast<float>(reach * c.real(0.9, 0.999))); break;
      case 6: ranges.push_back(c.chance(50) ? static_cast<float>(reach) == reach ? static_cast<float>(reach) : 1.0f : 0.0f); break;
      default: ranges.push_back(static_cast<float>(reach * c.real(0.02, 0.99)));
    }
  }
  r.m = s.laser(ranges);
  r.m.angle_min = static_cast<float>(c.heading());
  r.m.angle_increment = static_cast<float>(c.pick(std::vector<double>{0.02, 0.1, -0.05, 0.0043633, 0.3}));
  r.m.angle_max = r.m.angle_min + r.m.angle_increment * static_cast<float>(n);
  r.m.time_increment = static_cast<float>(c.pick(std::vector<double>{0, 0.001, 0.0000617, 0.01}));
  r.m.scan_time = c.chance(50) ? 0.1f : 0;
  r.m.range_min = c.pick(std::vector<float>{0.0f, 0.05f, 0.4f});
  if (!latched) r.m.range_max = static_cast<float>(c.pick(std::vector<double>{10, 5.5, 25, 3.3}));
  else r.m.range_max = static_cast<float>(c.pick(std::vector<double>{10, 1, 100, std::numeric_limits<float>::infinity()}));
  if (c.chance(60))
  {
    r.during.x = c.coord(1.5);
    r.during.y = c.coord(0.5);
    r.during.theta = c.coord(2);
    double t = static_cast<double>(n) * static_cast<double>(r.m.time_increment);
    if (std::fabs(r.during.theta) * t > 2.5) r.during.theta = 0;
  }
  return r;
}
}  // namespace

PBT_TEST(C24, points, 25000, 800000, "1 to 3 laser messages of up to 400 beams (NaN, infinite, negative, too short, too long), any planar mounting of the laser upside down or not, the robot moving during them, any odometry frame; "
         "non-trivial: points from a laser mounted off the axes while the robot moves and turns")
{
  begin(c);
  Config cfg;
  cfg.max_range = c.pick(std::vector<double>{-1, 4, 8.5, 6.1});
  if (c.chance(50)) { cfg.robot = "base_footprint"; cfg.odom = "wheel_odom"; }
  cfg.travel = cfg.rotation = 0;
  cfg.timeout = c.pick(std::vector<double>{0.2, 0, 1.5});
  Sim s(cfg);
  if (c.chance(30)) s.laser_frame = "base_laser_link";
  Mounting l = mount(c, s.mounting);
  s.odom = gen::pose(c, 20);
  c.note << "laser at " << l.show() << " max range " << cfg.max_range;
  size_t n = c.range(1, 3);
  double range_max = cfg.max_range;
  s.advance(0.001);
  for (size_t i = 0; i < n; ++i)
  {
    Message m = message(c, s, range_max, i > 0);
    if (range_max < 0) range_max = static_cast<double>(m.m.range_max);
    s.during = m.during;
    bool moving = (m.during.x != 0 || m.during.y != 0) && m.during.theta != 0 && m.m.time_increment > 0;
    auto want = project(m.m, l, m.during, range_max);
    if (moving && l.pose.theta != 0 && l.pose.x != 0 && want.size() > 1) c.nontrivial();
    c.label(l.inverted ? "upside down" : "upright");
    c.label(moving ? "turning" : "straight");
    c.note << "; " << m.m.ranges.size() << " beams from " << m.m.angle_min << " by " << m.m.angle_increment << " each " << m.m.time_increment << " s, moving " << gen::show(m.during) << " from " << gen::show(s.odom);
    s.send(m.m);
    Map map = s.map();
    CHECK(map.scans.size() == i + 1, "message " << i << " gave no scan");
    double duration = static_cast<double>(m.m.ranges.size()) * static_cast<double>(m.m.time_increment);
    double tol = 2e-5 * (1 + range_max / 10 + std::fabs(m.during.x) * duration) + range_max * (1 - cos(l.tilt) + l.tilt * l.tilt) + 1e-6 * static_cast<double>(m.m.ranges.size());
    check_points(map.scans[i].points, want, tol, "message " + std::to_string(i));
    s.during = Pose2d();
    s.odom = compose(s.odom, Pose2d(0.5, c.coord(0.3), c.coord(1)));
    if (c.chance(50)) s.advance(0.25);
    else stub::set_now_ns(stub::now_ns() + 1000000);
  }
  for (int64_t t : stub::tf_timeouts())
    CHECK(std::llabs(t - static_cast<int64_t>(cfg.timeout * 1e9)) < 1000000, "waited " << t * 1e-9 << " s for transforms instead of " << cfg.timeout);
}

PBT_TEST(C24, odometry_frame, 6000, 200000, "the same message while the odometry frame is elsewhere and turned; non-trivial: the robot moves during the message")
{
  auto salt = c.seed();
  Config cfg;
  cfg.max_range = 10;
  geometry_msgs::msg::Transform t;
  Mounting l = mount(c, t);
  Pose2d a = gen::pose(c, 20), b = gen::pose(c, 20);
  std::vector<Point> points[2];
  Message m;
  for (int k = 0; k < 2; ++k)
  {
    world::reset(salt);
    script().events.clear();
    Sim s(cfg);
    s.mounting = t;
    s.odom = k ? b : a;
    s.advance(0.001);
    if (!k) m = message(c, s, 10, true);
    else m.m.header.stamp = rclcpp::Time(stub::now_ns());
    s.during = m.during;
    s.send(m.m);
    Map map = s.map();
    CHECK(map.scans.size() == 1, "no scan");
    points[k] = map.scans[0].points;
  }
  c.note << "laser at " << l.show() << " odometry " << gen::show(a) << " or " << gen::show(b) << " moving " << gen::show(m.during);
  if ((m.during.x != 0 || m.during.y != 0) && m.m.time_increment > 0) c.nontrivial();
  CHECK(points[0].size() == points[1].size(), points[0].size() << " and " << points[1].size() << " points");
  for (size_t i = 0; i < points[0].size(); ++i)
    CHECK(pbt::near(points[0][i].x, points[1][i].x, 1e-9) && pbt::near(points[0][i].y, points[1][i].y, 1e-9),
          "point " << i << " is at (" << points[0][i].x << " " << points[0][i].y << ") or (" << points[1][i].x << " " << points[1][i].y << ")");
}
