// Histories of what a user does, which do not depend on what the node answers
#pragma once
#include "play.hpp"

namespace node
{
inline Config any_mode(Case & c, bool & filter, bool can_filter = true)
{
  filter = can_filter && c.chance(25);
  Config f = any_config(c, filter, c.chance(75));
  f.rolling = static_cast<int>(c.pick(std::vector<int>{2, 1, 3}));
  f.search = c.pick(std::vector<double>{1, 0});
  f.search_limit = static_cast<int>(c.pick(std::vector<int>{3, 1}));
  f.node_limit = 2;
  f.ndt = c.chance(25);
  if (filter || !f.mapping || c.chance(20)) f.map_file = "start";
  return f;
}
// Something a user does. It does not depend on what the node answered.
struct Act
{
  int kind;                          // 0: scan, 1: time passes, 2: pose, 3: request
  Pose2d move;
  std::vector<float> ranges;
  double seconds = 0;
  int action = 0;
  double variance = 0.01;            // of a pose
};
inline std::vector<Act> acts(Case & c, size_t n, const Config & f)
{
  std::vector<Act> v;
  if (!f.map_file.empty()) v.push_back({2, Pose2d(c.coord(1), c.coord(1), c.angle()), {}, 0, 0});
  for (size_t i = 0; i < n; ++i)
  {
    Act a;
    a.kind = static_cast<int>(c.weighted({8, 3, 1, 1}));
    double d = c.real(0.1, 0.5);
    a.move = a.kind == 2 ? Pose2d(c.coord(1), c.coord(1), c.angle()) : Pose2d(d, c.coord(0.1), c.coord(1.5));
    if (a.kind == 0) for (size_t k = c.below(6); k > 0; --k) a.ranges.push_back(static_cast<float>(c.real(0.5, 3)));
    a.seconds = c.pick(std::vector<double>{0.3, 1.1, 0.01, 2.5});
    a.action = c.pick(std::vector<int>{kSave, kEnable, kDisable, kLoad});
    v.push_back(a);
  }
  return v;
}
inline void act(Sim & s, const Act & a)
{
  switch (a.kind)
  {
    case 0:
      s.odom = compose(s.odom, a.move);
      if (std::hypot(s.odom.x, s.odom.y) > 1.5) s.odom = Pose2d(0.3 * s.odom.x, 0.3 * s.odom.y, s.odom.theta);
      s.send(s.laser(a.ranges));
      break;
    case 1: s.advance(a.seconds); break;
    case 2: s.pose(a.move, a.variance, a.variance, a.variance); break;
    default: s.call(a.action, a.action == kLoad ? "start" : a.action == kSave ? "kept " + s.cfg.odom : "");
  }
}
inline std::string describe(const Act & a)
{
  switch (a.kind)
  {
    case 0: return "scan of " + std::to_string(a.ranges.size());
    case 1: return pbt::shortstr(a.seconds) + " s";
    case 2: return "pose";
    default: return "request " + std::to_string(a.action);
  }
}
}  // namespace node
