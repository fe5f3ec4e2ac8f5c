// A simulated building
#pragma once
#include "node.hpp"
#include <random>

namespace node
{
struct Segment { double x1, y1, x2, y2; };

// A room with boxes in it, seen by a noisy laser
struct Building
{
  std::vector<Segment> walls;
  double w, h;

  explicit Building(Case & c)
  {
    w = c.real(3.5, 7);
    h = c.real(3.5, 7);
    box(0, 0, w, h, 0);
    // An alcove or a pillar makes no two views alike
    for (size_t k = 1 + c.below(3); k > 0; --k)
    {
      double t = c.chance(50) ? c.real(0, 1.5) : 0, s = c.real(0.3, 0.8);
      double x = c.real(0.5, w - 1), y = c.real(0.5, h - 1);
      box(x, y, s, c.real(0.3, 0.8), t);
    }
  }
  void box(double x, double y, double a, double b, double t)
  {
    double ux = a * cos(t), uy = a * sin(t), vx = -b * sin(t), vy = b * cos(t);
    walls.push_back({x, y, x + ux, y + uy});
    walls.push_back({x + ux, y + uy, x + ux + vx, y + uy + vy});
    walls.push_back({x + ux + vx, y + uy + vy, x + vx, y + vy});
    walls.push_back({x + vx, y + vy, x, y});
  }
  double distance(double x, double y) const
  {
    double best = 1e9;
    for (auto & s : walls)
    {
      double dx = s.x2 - s.x1, dy = s.y2 - s.y1;
      double t = std::max(0.0, std::min(1.0, ((x - s.x1) * dx + (y - s.y1) * dy) / (dx * dx + dy * dy)));
      best = std::min(best, std::hypot(x - s.x1 - t * dx, y - s.y1 - t * dy));
    }
    return best;
  }
  // To the first wall
  double cast(double x, double y, double a) const
  {
    double cx = cos(a), cy = sin(a), best = 1e9;
    for (auto & s : walls)
    {
      double dx = s.x2 - s.x1, dy = s.y2 - s.y1, det = cx * dy - cy * dx;
      if (std::fabs(det) < 1e-12) continue;
      double r = ((s.x1 - x) * dy - (s.y1 - y) * dx) / det;
      double t = ((s.x1 - x) * cy - (s.y1 - y) * cx) / det;
      if (r > 0 && t >= 0 && t <= 1) best = std::min(best, r);
    }
    return best;
  }
  bool free(double x, double y, double clearance) const
  {
    // Inside the room and outside the boxes: an odd and an even number of walls on each ray
    if (x < 0 || y < 0 || x > w || y > h || distance(x, y) < clearance) return false;
    int hits = 0;
    for (auto & s : walls)
      if ((s.y1 > y) != (s.y2 > y) && s.x1 + (y - s.y1) * (s.x2 - s.x1) / (s.y2 - s.y1) > x) ++hits;
    return hits % 2 == 1;
  }
};

// A robot that drives about in it
struct Robot
{
  Robot(Case & c_, const Building & b_, const Config & f) : c(c_), b(b_), rng(c_.seed()), cfg(f)
  {
    place();
    beams = c.pick(std::vector<int>{360, 540, 720});
    field = c.pick(std::vector<double>{270, 360, 240}) * M_PI / 180;
    inverted = c.chance(20);
    mount = Pose2d(c.real(-0.2, 0.25), c.real(-0.1, 0.1), c.chance(30) ? c.heading() : 0);
    noise = c.pick(std::vector<double>{0.01, 0.02, 0.015});
    sweep = c.chance(40) ? c.pick(std::vector<double>{0.1, 0.2}) : 0;
    biased = c.chance(50);
    bias = error();
  }
  void place()
  {
    for (int k = 0;; ++k)
    {
      if (k == 50) throw pbt::Discard();
      truth = Pose2d(c.real(0.5, b.w - 0.5), c.real(0.5, b.h - 0.5), c.heading());
      if (b.free(truth.x, truth.y, 0.4)) break;
    }
  }
  // In units of the largest error per step
  Pose2d error() { return Pose2d(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1)); }

  // The next place to take a scan; the odometry is wrong by up to (linear, linear, angular)
  void drive(double linear, double angular)
  {
    Pose2d was = truth;
    if (c.chance(15)) turning = -turning;
    bool reverse = c.chance(8);
    for (int k = 0;; ++k)
    {
      if (k == 60) throw pbt::Discard();
      double turn = k < 6 ? c.real(-0.1, 0.4) * turning : c.real(0.5, 2) * turning;
      double d = k >= 20 ? c.real(-0.3, -0.2) : reverse ? c.real(-0.4, -0.2) : c.real(0.2, 0.45);
      truth = compose(was, Pose2d(d * cos(turn), d * sin(turn), turn));
      truth.theta = ref::wrap(truth.theta);
      if (b.free(truth.x, truth.y, 0.3)) break;
    }
    Pose2d e = biased ? bias : error(), step = between(was, truth);
    odom = compose(odom, Pose2d(step.x + linear * e.x, step.y + linear * e.y, step.theta + angular * e.theta));
    odom.theta = ref::wrap(odom.theta);
  }
  geometry_msgs::msg::Transform mounting() const
  {
    geometry_msgs::msg::Transform t;
    t.translation.x = mount.x;
    t.translation.y = mount.y;
    if (inverted)
    {
      // (about x by half a turn, then about z)
      t.rotation.x = cos(mount.theta / 2);
      t.rotation.y = sin(mount.theta / 2);
      t.rotation.z = t.rotation.w = 0;
    }
    else
    {
      t.rotation.z = sin(mount.theta / 2);
      t.rotation.w = cos(mount.theta / 2);
    }
    return t;
  }
  // What the laser sees from here, while the robot moves by `during` per second
  Laser see(const Pose2d & during)
  {
    Laser m;
    m.header.frame_id = "laser";
    m.header.stamp = rclcpp::Time(stub::now_ns());
    m.angle_min = static_cast<float>(-field / 2);
    m.angle_increment = static_cast<float>(field / beams);
    m.angle_max = static_cast<float>(-field / 2 + m.angle_increment * (beams - 1));
    m.time_increment = static_cast<float>(sweep / beams);
    m.range_min = 0.05f;
    m.range_max = 10;
    std::normal_distribution<double> n(0, noise);
    for (int i = 0; i < beams; ++i)
    {
      double t = static_cast<double>(m.time_increment) * i;
      Pose2d at = compose(truth, Pose2d(during.x * t, during.y * t, during.theta * t));
      Pose2d eye = compose(at, mount);
      double a = static_cast<double>(m.angle_min) + i * static_cast<double>(m.angle_increment);
      double r = b.cast(eye.x, eye.y, eye.theta + (inverted ? -a : a)) + n(rng);
      if (rng() % 50 == 0) r = rng() % 2 ? INFINITY : NAN;      // no return
      m.ranges.push_back(static_cast<float>(r));
    }
    return m;
  }
  // The points of a scan, as they are
  std::vector<Point> points()
  {
    std::vector<Point> v;
    std::normal_distribution<double> n(0, noise);
    Pose2d eye = compose(truth, mount);
    for (int i = 0; i < beams; ++i)
    {
      double a = -field / 2 + i * field / beams, r = b.cast(eye.x, eye.y, eye.theta + a) + n(rng);
      Pose2d p = compose(mount, Pose2d(r * cos(a), r * sin(a), 0));
      v.push_back(Point(p.x, p.y));
    }
    return v;
  }
  void scan(Sim & s)
  {
    s.odom = odom;
    s.during = sweep > 0 ? Pose2d(c.real(0, 0.8), 0, c.real(-1, 1)) : Pose2d();
    s.send(see(s.during));
    s.advance(c.pick(std::vector<double>{0.3, 0.5, 1.2}));
  }

  Case & c;
  const Building & b;
  std::mt19937_64 rng;
  Config cfg;
  Pose2d truth, odom, mount, bias;
  int beams;
  double field, noise, sweep, turning = 1;
  bool inverted, biased;
};
}  // namespace node
