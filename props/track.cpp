// C36, C37: the whole node in a simulated building: mapping it, and being localised in it
#include "building.hpp"
#include <random>
using namespace node;

namespace
{
Config real_config(Case & c)
{
  Config f;
  f.ndt = true;
  f.window = c.pick(std::vector<double>{0.075, 0.1});
  f.step = 0.0125;
  f.angle_window = c.pick(std::vector<double>{0.075, 0.1});
  f.angle_step = 0.0125;
  f.beams = static_cast<int>(c.pick(std::vector<int>{50, 40, 80}));
  f.travel = 0.1;
  f.max_range = c.chance(20) ? 10 : -1;
  f.barycenter = c.chance(50);
  return f;
}
// The place of `b` in the map whose origin is the place `a`
double off(const Pose2d & a, const Pose2d & b) { return std::hypot(a.x - b.x, a.y - b.y); }
double turned(const Pose2d & a, const Pose2d & b) { return std::fabs(ref::wrap(a.theta - b.theta)); }
double median(std::vector<double> v)
{
  if (v.empty()) return 0;
  std::sort(v.begin(), v.end());
  return v[v.size() / 2];
}
double calibrate = std::getenv("CALIBRATE") ? 100 : 1;
}  // namespace

PBT_TEST(C36, maps, 600, 15000, "a robot with wrong odometry maps a room with boxes by a noisy laser, with loop closures and optimisations: where the scans of the map are, where the robot is, and where the walls are in the published map; non-trivial: at least 6 scans, and odometry that is off by more than 0.3 m or 0.3 rad at the end")
{
  begin(c);
  Building b(c);
  Config f = real_config(c);
  f.rolling = static_cast<int>(c.pick(std::vector<int>{5, 10, 7}));
  f.search = c.pick(std::vector<double>{2, 0.5, 0.2});
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{5, 2, 25}));
  Robot r(c, b, f);
  r.odom = Pose2d(c.coord(5), c.coord(5), c.heading());
  Sim s(f);
  s.mounting = r.mounting();
  const double linear = 0.4 * f.window, angular = 0.4 * f.angle_window;
  Pose2d origin = r.truth, odom0 = r.odom;
  std::vector<Pose2d> truth;
  size_t n = 3 + c.below(30);
  double worst = 0, worst_turn = 0;
  std::vector<double> errors, turns;
  c.note << f.show() << " window " << f.window << "/" << f.angle_window << "; room " << pbt::shortstr(b.w) << " x " << pbt::shortstr(b.h) << ", " << b.walls.size() / 4 - 1 << " boxes, noise " << r.noise << (r.sweep > 0 ? ", moving" : "") << (r.inverted ? ", inverted" : "") << (r.biased ? ", biased" : "");
  for (size_t k = 0; k < n; ++k)
  {
    if (k) r.drive(linear, angular);
    r.scan(s);
    truth.push_back(between(origin, r.truth));
    Pose2d robot;
    CHECK(s.robot_by_tf(r.odom, robot), "no transform");
    double d = off(robot, truth[k]), t = turned(robot, truth[k]);
    worst = std::max(worst, d);
    errors.push_back(d);
    turns.push_back(t);
    worst_turn = std::max(worst_turn, t);
    CHECK(d < 0.5 * calibrate && t < 0.2 * calibrate, "after " << k + 1 << " scans the robot is taken to be at " << show(robot) << ", it is at " << show(truth[k]));
  }
  s.advance(3);
  Map m = s.map();
  CHECK(m.scans.size() == n, m.scans.size() << " scans in the map, of " << n);
  double scans = 0;
  for (size_t k = 0; k < n; ++k)
  {
    double d = off(m.scans[k].pose, truth[k]);
    scans = std::max(scans, d);
    CHECK(d < 0.5 * calibrate && turned(m.scans[k].pose, truth[k]) < 0.2 * calibrate, "scan " << k << " is at " << show(m.scans[k].pose) << " in the map, it was taken at " << show(truth[k]));
  }
  std::vector<double> step, step_turn;
  for (size_t k = 1; k < n; ++k)
  {
    Pose2d got = between(m.scans[k - 1].pose, m.scans[k].pose), want = between(truth[k - 1], truth[k]);
    step.push_back(off(got, want));
    step_turn.push_back(turned(got, want));
  }
  if (n >= 8)
    CHECK(median(step) < 0.06 * calibrate && median(step_turn) < 0.03 * calibrate, "half of the steps from scan to scan are wrong by at least " << median(step) << " m, " << median(step_turn) << " rad; those of the odometry by up to " << 1.41 * linear << " m, " << angular << " rad");
  size_t closures = 0;
  for (auto & k : m.constraints) closures += k.sw;
  // Walls in the published map: where there are some, and none where there is nothing
  auto & g = s.occupancy();
  size_t occupied = 0, wrong = 0;
  for (size_t i = 0; i < g.data.size(); ++i)
  {
    if (g.data[i] != 100) continue;
    Pose2d p = compose(origin, Pose2d(g.info.origin.position.x + (static_cast<double>(i % g.info.width) + 0.5) * g.info.resolution,
                                      g.info.origin.position.y + (static_cast<double>(i / g.info.width) + 0.5) * g.info.resolution, 0));
    ++occupied;
    if (b.distance(p.x, p.y) > 0.2 + worst) ++wrong;
  }
  CHECK(occupied > 20, "only " << occupied << " occupied cells");
  if (calibrate == 1) CHECK(static_cast<double>(wrong) < 0.05 * static_cast<double>(occupied), wrong << " of " << occupied << " occupied cells of the published map are more than " << 0.2 + worst << " m from any wall");
  Pose2d blind = between(odom0, r.odom);
  FILE * cal = calibrate > 1 ? fopen("/tmp/cal.txt", "a") : nullptr; if (cal) fprintf(cal, "CAL %g %g %g %zu %zu %zu n=%zu noise %g w %g aw %g dead %g %g roll %d med %g %g\n", worst, worst_turn, scans, occupied, wrong, closures, n, r.noise, f.window, f.angle_window, off(blind, truth.back()), turned(blind, truth.back()), f.rolling, median(step), median(step_turn)), fclose(cal);
  c.note << "; " << n << " scans, " << closures << " closures, odometry off by " << pbt::shortstr(off(blind, truth.back())) << " m, " << pbt::shortstr(turned(blind, truth.back())) << " rad, estimate by at most " << pbt::shortstr(worst) << " m, " << pbt::shortstr(worst_turn) << " rad";
  c.label(closures ? "closures" : "no closure");
  if (r.sweep > 0) c.label("moving during scans");
  if (n >= 6 && (off(blind, truth.back()) > 0.3 || turned(blind, truth.back()) > 0.3)) c.nontrivial();
}

PBT_TEST(C37, tracks, 1000, 30000, "a robot with wrong odometry is told about where it is in a map of a room with boxes, and localises itself by scan matching or the particle filter; non-trivial: at least 6 scans, and odometry that is off by more than 0.3 m or 0.3 rad at the end")
{
  begin(c);
  Building b(c);
  Config f = real_config(c);
  f.filter = c.chance(40);
  f.mapping = f.filter && c.chance(50);
  f.map_file = "building";
  if (f.filter)
  {
    f.min_particles = 500;
    f.max_particles = 1000;
    f.kld_err = 0.02;
    for (double & a : f.alpha) a = 0.03;
    f.beams = 60;
  }
  Robot r(c, b, f);
  // The map: scans from all over the place, with any origin and heading
  Pose2d frame(c.coord(5), c.coord(5), c.heading());
  auto in_map = [&](const Pose2d & p) { Pose2d q = compose(frame, p); q.theta = ref::wrap(q.theta); return q; };
  {
    Graph g(f.barycenter);
    const Pose2d start = r.truth;
    for (size_t k = 0, n = 10 + c.below(6); k < n; ++k)
    {
      r.place();
      auto s = std::make_shared<Scan>(k);
      s->setPose(in_map(r.truth));
      s->setPoints(r.points());
      g.scans.push_back(s);
    }
    r.truth = start;
    g.save(f.map_file);
  }
  r.odom = Pose2d(c.coord(5), c.coord(5), c.heading());
  Sim s(f);
  s.mounting = r.mounting();
  const double linear = (f.filter ? 0.03 : 0.4 * f.window), angular = (f.filter ? 0.03 : 0.4 * f.angle_window);
  Pose2d start = r.truth, odom0 = r.odom;
  // The pose may be given in the middle of things
  for (size_t k = c.below(3); k > 0; --k) { r.scan(s); r.drive(linear, angular); }
  s.odom = r.odom;
  Pose2d e = r.error(), told = compose(in_map(r.truth), Pose2d(0.3 * e.x * linear, 0.3 * e.y * linear, 0.3 * e.theta * angular));
  told.theta = ref::wrap(told.theta);
  s.pose(told, 0.0009, 0.0009, 0.0009);
  size_t n = 3 + c.below(20);
  double worst = 0, worst_turn = 0;
  std::vector<double> errors, turns;
  c.note << f.show() << " window " << f.window << "/" << f.angle_window << "; room " << pbt::shortstr(b.w) << " x " << pbt::shortstr(b.h) << ", " << b.walls.size() / 4 - 1 << " boxes, noise " << r.noise << (r.sweep > 0 ? ", moving" : "") << (r.inverted ? ", inverted" : "") << (r.biased ? ", biased" : "");
  Map before;
  for (size_t k = 0; k < n; ++k)
  {
    r.drive(linear, angular);
    r.scan(s);
    Pose2d robot, truth = in_map(r.truth);
    CHECK(s.robot_by_tf(r.odom, robot), "no transform");
    double d = off(robot, truth), t = turned(robot, truth);
    worst = std::max(worst, d);
    errors.push_back(d);
    turns.push_back(t);
    worst_turn = std::max(worst_turn, t);
    CHECK(d < (f.filter ? 1 : 0.5) * calibrate && t < (f.filter ? 0.4 : 0.15) * calibrate, "after " << k + 1 << " scans the robot is taken to be at " << show(robot) << ", it is at " << show(truth));
  }
  if (n >= 8)
    CHECK(median(errors) < (f.filter ? 0.5 : 0.08) * calibrate && median(turns) < (f.filter ? 0.2 : 0.03) * calibrate, "half of the estimates are wrong by at least " << median(errors) << " m, " << median(turns) << " rad");
  Pose2d blind = between(odom0, r.odom), real = between(start, r.truth);
  FILE * cal = calibrate > 1 ? fopen("/tmp/cal.txt", "a") : nullptr; if (cal) fprintf(cal, "CAL %d %g %g n=%zu noise %g w %g aw %g dead %g %g med %g %g\n", f.filter, worst, worst_turn, n, r.noise, f.window, f.angle_window, off(blind, real), turned(blind, real), median(errors), median(turns)), fclose(cal);
  c.note << "; " << n << " scans, odometry off by " << pbt::shortstr(off(blind, real)) << " m, " << pbt::shortstr(turned(blind, real)) << " rad, estimate by at most " << pbt::shortstr(worst) << " m, " << pbt::shortstr(worst_turn) << " rad";
  c.label(f.filter ? "particle filter" : "scan matching");
  if (n >= 6 && (off(blind, real) > 0.3 || turned(blind, real) > 0.3)) c.nontrivial();
}
