// C41: what is malformed is ignored
#include "seen.hpp"
using namespace node;

namespace
{
const double kNaN = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
template <typename T>
T no_number(Case & c) { return static_cast<T>(c.pick(std::vector<double>{kNaN, kInf, -kInf})); }
// Something that is no message, request or file the node can make sense of
struct Bad
{
  int kind;                          // 0: scan, 1: pose, 2: request, 3: file
  Laser scan;
  Pose2d move;
  geometry_msgs::msg::PoseWithCovarianceStamped pose;
  int action = 0;
  std::string file, what;
};
Bad bad(Case & c, const Config & f, const Sim & s, bool first)
{
  Bad b;
  b.kind = static_cast<int>(c.weighted({4, 4, 1, 2}));
  std::ostringstream what;
  switch (b.kind)
  {
    case 0:
      {
        std::vector<float> ranges;
        for (size_t k = c.below(6); k > 0; --k) ranges.push_back(static_cast<float>(c.real(0.5, 3)));
        b.scan = s.laser(ranges);
        b.move = Pose2d(c.real(0.1, 0.5), 0, c.coord(1));
        bool range = f.max_range < 0 && first && c.chance(50);     // (the range of the first scan counts)
        size_t which = range ? 3 : c.below(3);
        float v = no_number<float>(c);
        (which == 0 ? b.scan.angle_min : which == 1 ? b.scan.angle_increment : which == 2 ? b.scan.time_increment : b.scan.range_max) = v;
        what << "scan of " << ranges.size() << " with " << (which == 0 ? "angle_min " : which == 1 ? "angle_increment " : which == 2 ? "time_increment " : "range_max ") << v;
        break;
      }
    case 1:
      {
        auto & m = b.pose;
        m.header.frame_id = "map";
        double th = c.angle(), v;
        m.pose.pose.position.x = c.coord(2);
        m.pose.pose.position.y = c.coord(2);
        m.pose.pose.orientation.z = sin(th / 2);
        m.pose.pose.orientation.w = cos(th / 2);
        m.pose.covariance[0] = m.pose.covariance[7] = m.pose.covariance[35] = 0.01;
        size_t which = c.below(f.filter ? 7 : 4);
        if (which < 4)
        {
          v = no_number<double>(c);
          auto & p = m.pose.pose;
          (which == 0 ? p.position.x : which == 1 ? p.position.y : which == 2 ? p.orientation.z : p.orientation.w) = v;
        }
        else
        {
          v = c.pick(std::vector<double>{kNaN, kInf, -0.01, -1e-300, -kInf});
          m.pose.covariance[which == 4 ? 0 : which == 5 ? 7 : 35] = v;
        }
        const char * names[] = {"x", "y", "qz", "qw", "variance of x", "variance of y", "variance of the heading"};
        what << "pose with " << names[which] << " " << v;
        break;
      }
    case 2:
      b.action = c.pick(std::vector<int>{0, 16, 32, 1 << 20, 16 | 64, static_cast<int>(0x80000000u)});
      what << "request " << b.action;
      break;
    default:
      b.action = kLoad;
      b.file = c.pick(std::vector<std::string>{"broken", "broken2", "missing"});
      what << "load of " << b.file;
  }
  b.what = what.str();
  return b;
}
ConstraintPtr joined(size_t begin, size_t end)
{
  auto k = std::make_shared<Constraint>();
  k->begin = begin;
  k->end = end;
  k->transform = Eigen::Vector3d(0.1, 0, 0);
  k->information = Eigen::Matrix3d::Identity();
  k->switchable = false;
  return k;
}
// Maps with a constraint of a scan that they do not hold
void write_broken(Case & c, const std::string & name)
{
  Graph g(true);
  size_t n = c.below(4);
  for (size_t i = 0; i < n; ++i)
  {
    auto s = std::make_shared<Scan>(i);
    s->setPose(gen::pose(c, 2));
    s->setPoints({{1, 0}, {0, 1}});
    g.scans.push_back(s);
  }
  for (size_t i = 0; i + 1 < n; ++i) g.constraints.push_back(joined(i, i + 1));
  size_t none = n + c.pick(std::vector<size_t>{0, 1, 100, 1ul << 31, 1ul << 32, (1ul << 63) - n - 1});
  size_t other = c.chance(70) && n ? c.below(n) : none;
  bool first = c.chance(50);
  g.constraints.insert(g.constraints.begin() + static_cast<long>(c.below(g.constraints.size() + 1)), joined(first ? none : other, first ? other : none));
  g.save(name);
}
}  // namespace

PBT_TEST(C41, ignored, 3000, 100000, "histories of up to 25 scans, poses, waits and requests in all modes, with up to six scans of no finite geometry, poses that are not finite or have no variance, requests for nothing, and map files that are missing or refer to scans they do not hold, in between; compared bit by bit with the same history without these; "
         "non-trivial: a map of two scans, and something malformed after the second of them")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  if (c.chance(40)) f.max_range = -1;
  uint64_t seed = c.seed(), salt = script().salt;
  unsigned accept = c.pick(std::vector<unsigned>{100, 60});
  bool close = c.chance(40);
  write_map(c, "start", 1 + c.below(5), 1, f.barycenter);
  write_broken(c, "broken");
  write_broken(c, "broken2");
  auto files = stub::bags();
  auto todo = acts(c, 1 + c.size(20), f);
  std::vector<std::vector<Bad>> wrong(todo.size() + 1);
  Pose2d at = gen::pose(c, 5);
  {
    Sim s(f);
    for (size_t k = 1 + c.below(6); k > 0; --k)
    {
      size_t where = c.below(wrong.size());
      bool first = true;
      for (size_t i = 0; i < where; ++i) first = first && todo[i].kind != 0;
      wrong[where].push_back(bad(c, f, s, first));
    }
  }
  c.note << f.show() << " range " << f.max_range;
  for (size_t i = 0; i <= todo.size(); ++i)
  {
    for (auto & b : wrong[i]) c.note << "; " << b.what;
    if (i < todo.size()) c.note << "; " << describe(todo[i]);
  }
  size_t scans = 0;
  bool telling = false;
  auto run = [&](bool with) {
      world::reset(seed);
      script().salt = salt;
      script().closure_shift = 0.02;
      script().accept = accept;
      script().close = close;
      script().events.clear();
      script().pause = 0;
      stub::bags() = files;
      Sim s(f);
      s.odom = at;
      for (size_t i = 0; i <= todo.size(); ++i)
      {
        for (auto & b : wrong[i])
        {
          if (!with) break;
          int64_t now = stub::now_ns(), stamp = s.stamp;
          Pose2d odom = s.odom;
          switch (b.kind)
          {
            case 0:
              b.scan.header.stamp = rclcpp::Time(now);
              s.odom = compose(s.odom, b.move);
              s.send(b.scan);
              break;
            case 1:
              b.pose.header.stamp = rclcpp::Time(now);
              s.mapper->stub_receive<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", b.pose);
              break;
            default:
              s.call(b.action, b.file);
          }
          CHECK(stub::now_ns() - now < 1000000000, "it took more than a second to ignore a " << b.what);
          s.odom = odom;
          s.stamp = stamp;
        }
        if (i < todo.size()) act(s, todo[i]);
      }
      s.advance(1.3);
      scans = s.map().scans.size();
      Seen seen = look(s);
      for (auto & b : stub::bags()) seen.push_back("file '" + b.first + "'");
      return seen;
    };
  Seen without = run(false), with = run(true);
  check_seen(without, with, "a node that was sent something malformed", "one that was not");
  for (size_t i = 2; i < wrong.size(); ++i) telling = telling || !wrong[i].empty();
  if (scans >= 2 && telling) c.nontrivial();
  c.label(filter ? "filter" : f.mapping ? "mapping" : "localising");
  for (auto & w : wrong) for (auto & b : w) c.label(b.kind == 0 ? "scan" : b.kind == 1 ? "pose" : b.kind == 2 ? "request" : "file");
}

PBT_TEST(C41, start, 1000, 20000, "nodes that are to be started with a map that refers to scans it does not hold, or that is missing: an exception that names the reason, as for a file that cannot be read, or a node without a map; never a crash; "
         "non-trivial: the file exists")
{
  begin(c);
  bool filter;
  Config f = any_mode(c, filter);
  write_broken(c, "broken");
  f.map_file = c.pick(std::vector<std::string>{"broken", "broken", "missing"});
  c.note << f.show();
  try
  {
    Sim s(f);
    s.odom = gen::pose(c, 5);
    s.advance(1.3);
    for (size_t k = 1 + c.below(3); k > 0; --k)
    {
      s.odom.x += 0.5;
      s.send(s.laser({1, 2, 1}));
      s.advance(0.7);
    }
    CHECK(s.map().constraints.size() <= s.map().scans.size() * 3, "the node works with that map");
    for (auto & k : s.map().constraints) CHECK(k.begin < s.map().scans.size() && k.end < s.map().scans.size(), "the node works with that map");
    c.label("started");
  }
  catch (const pbt::Failure &) { throw; }
  catch (const std::exception & e)
  {
    CHECK(std::strlen(e.what()) > 0, "no reason was given");
    c.label("refused");
  }
  if (f.map_file == "broken") c.nontrivial();
}
