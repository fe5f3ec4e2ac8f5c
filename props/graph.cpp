// C21, C22, C23: the graph of scans and constraints
#include "common.hpp"
#include <cstring>
#include <limits>
#include <ndt_2d/graph.hpp>
#include <stub/bags.hpp>
#include <world.hpp>
using ndt_2d::Constraint;
using ndt_2d::ConstraintPtr;
using ndt_2d::Graph;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using pbt::Case;

namespace
{
// A value copy of a graph
struct Copy
{
  struct S { size_t id; Pose2d pose; std::vector<Point> points; };
  struct C { size_t begin, end; Eigen::Vector3d t; Eigen::Matrix3d info; bool sw; };
  std::vector<S> scans;
  std::vector<C> constraints;
  explicit Copy(const Graph & g)
  {
    for (auto & s : g.scans) scans.push_back({s->getId(), s->getPose(), s->getPoints()});
    for (auto & k : g.constraints) constraints.push_back({k->begin, k->end, k->transform, k->information, k->switchable});
  }
};
bool same(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0 || a == b; }
void check_same(const Copy & a, const Copy & b, const std::string & what)
{
  CHECK(a.scans.size() == b.scans.size(), what << ": " << a.scans.size() << " scans became " << b.scans.size());
  CHECK(a.constraints.size() == b.constraints.size(), what << ": " << a.constraints.size() << " constraints became " << b.constraints.size());
  for (size_t i = 0; i < a.scans.size(); ++i)
  {
    auto & p = a.scans[i];
    auto & q = b.scans[i];
    CHECK(p.id == q.id, what << ": id " << p.id << " of scan " << i << " became " << q.id);
    CHECK(same(p.pose.x, q.pose.x) && same(p.pose.y, q.pose.y) && same(p.pose.theta, q.pose.theta),
          what << ": pose (" << p.pose.x << " " << p.pose.y << " " << p.pose.theta << ") of scan " << i << " became (" << q.pose.x << " " << q.pose.y << " " << q.pose.theta << ")");
    CHECK(p.points.size() == q.points.size(), what << ": scan " << i << " had " << p.points.size() << " points and has " << q.points.size());
    for (size_t j = 0; j < p.points.size(); ++j)
      CHECK(same(p.points[j].x, q.points[j].x) && same(p.points[j].y, q.points[j].y),
            what << ": point " << j << " of scan " << i << " (" << p.points[j].x << " " << p.points[j].y << ") became (" << q.points[j].x << " " << q.points[j].y << ")");
  }
  for (size_t i = 0; i < a.constraints.size(); ++i)
  {
    auto & p = a.constraints[i];
    auto & q = b.constraints[i];
    CHECK(p.begin == q.begin && p.end == q.end, what << ": constraint " << i << " joined " << p.begin << " to " << p.end << " and joins " << q.begin << " to " << q.end);
    CHECK(p.sw == q.sw, what << ": constraint " << i << " switchable " << p.sw << " became " << q.sw);
    for (int j = 0; j < 3; ++j)
    {
      CHECK(same(p.t(j), q.t(j)), what << ": transform component " << j << " of constraint " << i << ": " << p.t(j) << " became " << q.t(j));
      for (int k = 0; k < 3; ++k)
        CHECK(same(p.info(j, k), q.info(j, k)), what << ": information " << j << "," << k << " of constraint " << i << ": " << p.info(j, k) << " became " << q.info(j, k));
    }
  }
}

double any_value(Case & c, double m)
{
  switch (c.weighted({8, 1, 1, 1, 1}))
  {
    case 1: return c.pick(std::vector<double>{1e-300, 5e-324, 1e-9, -1e-12, -0.0});
    case 2: return c.pick(std::vector<double>{1e300, -1e18, 1e12, std::numeric_limits<double>::max()});
    case 3: return static_cast<float>(c.coord(m)) + 1e-9;
    case 4: return c.coord(m) * 1e6;
    default: return c.coord(m);
  }
}
size_t any_index(Case & c, size_t i)
{
  switch (c.weighted({8, 1, 1}))
  {
    case 1: return c.pick(std::vector<size_t>{255, 256, 65535, 65536, 2147483647ul, 2147483648ul, 4294967295ul});
    case 2: return c.below(1000);
    default: return i;
  }
}
ScanPtr any_scan(Case & c, size_t i, bool wild)
{
  const size_t id = wild ? any_index(c, i) : i;
  auto s = std::make_shared<Scan>(id);
  CHECK(s->getId() == id, "scan " << id << " says it is " << s->getId());
  Pose2d p;
  p.x = wild ? any_value(c, 50) : c.coord(50);
  p.y = wild ? any_value(c, 50) : c.coord(50);
  p.theta = wild && c.chance(20) ? any_value(c, 10) : c.angle();
  s->setPose(p);
  std::vector<Point> pts;
  size_t n = c.rare(600) ? 300 + c.below(5000) : c.size(c.chance(5) ? 300 : 8);
  for (size_t j = 0; j < n; ++j)
  {
    if (wild) { double x = any_value(c, 20); pts.emplace_back(x, any_value(c, 20)); }
    else { double x = c.coord(20); pts.emplace_back(x, c.coord(20)); }
  }
  s->setPoints(pts);
  return s;
}
ConstraintPtr any_constraint(Case & c, size_t scans, bool wild)
{
  auto k = std::make_shared<Constraint>();
  const size_t begin = wild ? any_index(c, c.below(scans + 1)) : c.below(scans);
  const size_t end = wild ? any_index(c, c.below(scans + 1)) : c.below(scans);
  k->begin = begin;
  k->end = end;
  CHECK(k->begin == begin && k->end == end, "a constraint cannot join " << begin << " to " << end << ", only " << k->begin << " to " << k->end);
  for (int i = 0; i < 3; ++i) k->transform(i) = any_value(c, 10);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) k->information(i, j) = any_value(c, 1000);
  k->switchable = c.chance(50);
  return k;
}
void fill(Case & c, Graph & g, bool wild, size_t most)
{
  // sometimes as many as of a large building
  bool large = most >= 6 && c.rare(400);
  size_t n = large ? 200 + c.below(1300) : c.size(most);
  for (size_t i = 0; i < n; ++i) g.scans.push_back(any_scan(c, g.scans.size(), wild));
  size_t k = large ? 200 + c.below(2500) : wild || n ? c.size(most) : 0;
  if (large) c.label("large");
  for (size_t i = 0; i < k; ++i) g.constraints.push_back(any_constraint(c, g.scans.size(), wild));
}
}  // namespace

PBT_TEST(C21, round_trip, 20000, 600000, "a graph of up to 40 (sometimes thousands of) scans and constraints saved and loaded 1 to 4 times, changed in between; non-trivial: it holds scans with points and constraints")
{
  world::reset(1);
  std::unique_ptr<Graph> g(new Graph(c.chance(50)));
  fill(c, *g, true, c.chance(10) ? 40 : 6);
  size_t rounds = c.range(1, 4);
  bool points = false;
  for (auto & s : g->scans) points = points || !s->getPoints().empty();
  if (points && !g->constraints.empty()) c.nontrivial();
  c.note << g->scans.size() << " scans " << g->constraints.size() << " constraints " << rounds << " rounds";
  c.label(g->scans.empty() ? "no scans" : g->constraints.empty() ? "scans only" : "both");
  std::vector<std::pair<std::string, Copy>> files;
  for (size_t r = 0; r < rounds; ++r)
  {
    std::string name = c.pick(std::vector<std::string>{"map", "/tmp/a b", "x.bag", "karte_\xc3\xbc"}) + std::to_string(r);
    Copy before(*g);
    CHECK(g->save(name), "saving to a new file failed");
    check_same(before, Copy(*g), "saving round " + std::to_string(r));
    std::unique_ptr<Graph> h(new Graph(c.chance(50), name));
    check_same(before, Copy(*h), "loading round " + std::to_string(r));
    files.emplace_back(name, before);
    if (c.chance(60)) g = std::move(h);
    if (c.chance(40)) fill(c, *g, true, 3);
  }
  for (auto & f : files) check_same(f.second, Copy(Graph(false, f.first)), "reading " + f.first + " again");
}

namespace
{
Eigen::Vector2d place_of(const ScanPtr & s, bool bary)
{
  Pose2d p = s->getPose();
  auto pts = s->getPoints();
  if (!bary || pts.empty()) return Eigen::Vector2d(p.x, p.y);
  double x = 0, y = 0;
  for (auto & q : pts) { x += q.x; y += q.y; }
  x /= static_cast<double>(pts.size());
  y /= static_cast<double>(pts.size());
  return Eigen::Vector2d(p.x + x * cos(p.theta) - y * sin(p.theta), p.y + x * sin(p.theta) + y * cos(p.theta));
}
}  // namespace

PBT_TEST(C22, brute_force, 30000, 400000, "searches among up to 400 (sometimes 3000) scans, moved and added in between, against brute force; non-trivial: some scans inside and some outside the distance")
{
  bool bary = c.chance(50);
  Graph g(bary);
  double m = c.pick(std::vector<double>{5, 1, 20, 100, 1000});
  size_t n = c.rare(250) ? 400 + c.below(2600) : c.size(c.chance(5) ? 400 : 30);
  auto place = [&](const ScanPtr & s)
    {
      Pose2d p = gen::pose(c, m);
      if (!g.scans.empty() && c.chance(15)) p = g.scans[c.below(g.scans.size())]->getPose();
      s->setPose(p);
    };
  auto points = [&](const ScanPtr & s)
    {
      std::vector<Point> pts;
      size_t k = c.size(6);
      double cx = c.coord(m / 2), cy = c.coord(m / 2);
      for (size_t i = 0; i < k; ++i) { double x = cx + c.coord(m / 2); pts.emplace_back(x, cy + c.coord(m / 2)); }
      s->setPoints(pts);
    };
  auto make = [&](size_t id)
    {
      auto s = std::make_shared<Scan>(id);
      place(s);
      points(s);
      return s;
    };
  for (size_t i = 0; i < n; ++i) g.scans.push_back(make(i));
  size_t searches = c.range(1, 4);
  c.note << (bary ? "barycenters " : "poses ") << n << " scans within " << m;
  for (size_t r = 0; r < searches; ++r)
  {
    if (r && !g.scans.empty())
      for (size_t k = c.size(5); k > 0; --k)
      {
        auto & s = g.scans[c.below(g.scans.size())];
        switch (c.below(3))
        {
          case 0: place(s); break;
          case 1: points(s); break;
          default: g.scans.push_back(make(g.scans.size()));
        }
      }
    ScanPtr query = !g.scans.empty() && c.chance(60) ? g.scans[c.below(g.scans.size())] : make(77777);
    double dist = c.weighted({6, 1, 1}) == 0 ? m * c.pick(std::vector<double>{0.5, 0.1, 1, 0.02}) * c.real(0.5, 2) :
      c.pick(std::vector<double>{1, 0.5, 0, 10, 4});
    int limit = static_cast<int>(c.pick(std::vector<int>{-1, 0, -5, 1}));
    if (c.chance(50)) limit = static_cast<int>(c.range(1, static_cast<int64_t>(g.scans.size()) + 3));
    size_t among = limit > 0 ? std::min<size_t>(limit, g.scans.size()) : g.scans.size();
    Eigen::Vector2d q = place_of(query, bary);
    c.note << "; distance " << pbt::shortstr(dist) << " limit " << limit << " at " << pbt::shortstr(q(0)) << " " << pbt::shortstr(q(1));
    Copy before(g);
    auto found = g.findNearest(query, dist, limit);
    check_same(before, Copy(g), "searching");
    std::set<size_t> seen;
    double last = 0;
    for (size_t i : found)
    {
      CHECK(i < among, "index " << i << " among the first " << among << " scans");
      CHECK(seen.insert(i).second, "index " << i << " twice");
      double d = (place_of(g.scans[i], bary) - q).norm();
      CHECK(d < dist * (1 + 1e-9) + 1e-9 * (dist > 0 ? 1 : 0), "scan " << i << " is " << d << " away, the distance is " << dist);
      CHECK(d >= last - 1e-9 * (1 + m), "scan " << i << " at " << d << " after one at " << last);
      last = d;
    }
    size_t inside = 0, outside = 0;
    for (size_t i = 0; i < among; ++i)
    {
      double d = (place_of(g.scans[i], bary) - q).norm();
      bool in = d < dist * (1 - 1e-9) - 1e-9;
      (in ? inside : outside) += 1;
      CHECK(!in || seen.count(i), "scan " << i << " is " << d << " away, less than " << dist << ", and not found");
    }
    if (inside && outside) c.nontrivial();
    c.label(dist < 1 ? "below a metre" : "above a metre");
  }
}

PBT_TEST(C23, markers, 60000, 300000, "markers of graphs of up to 40 (sometimes thousands of) scans and constraints, moved and added in between; non-trivial: both kinds of constraint")
{
  Graph g(c.chance(50));
  fill(c, g, false, c.chance(10) ? 40 : 7);
  c.note << g.scans.size() << " scans " << g.constraints.size() << " constraints";
  size_t rounds = c.range(1, 3), sw = 0;
  for (auto & k : g.constraints) sw += k->switchable;
  if (sw && sw < g.constraints.size()) c.nontrivial();
  for (size_t r = 0; r < rounds; ++r)
  {
    if (r)
    {
      for (auto & s : g.scans)
        if (c.chance(50)) s->setPose(gen::pose(c, 50));
      fill(c, g, false, 3);
    }
    Copy before(g);
    rclcpp::Time t(static_cast<int64_t>(c.below(4000000000000ull)));
    visualization_msgs::msg::MarkerArray msg;
    g.getMsg(msg, t);
    check_same(before, Copy(g), "showing");
    std::set<std::pair<std::string, long>> keys;
    std::map<long, const visualization_msgs::msg::Marker *> nodes;
    // Edges, as multisets of what they show
    typedef std::array<double, 7> Edge;
    std::multiset<Edge> edges, expected;
    for (auto & m : msg.markers)
    {
      CHECK(keys.insert({m.ns, m.id}).second, "marker " << m.ns << " " << m.id << " twice");
      CHECK(m.header.frame_id == "map", "frame " << m.header.frame_id);
      CHECK(rclcpp::Time(m.header.stamp).nanoseconds() == t.nanoseconds(), "stamp " << rclcpp::Time(m.header.stamp).nanoseconds() << " is not the one given, " << t.nanoseconds());
      CHECK(m.action == visualization_msgs::msg::Marker::ADD, "marker action " << m.action);
      CHECK(m.color.a > 0, "an invisible marker");
      if (m.ns == "nodes")
      {
        CHECK(m.color.r == 1 && m.color.g == 0 && m.color.b == 0, "node colour " << m.color.r << " " << m.color.g << " " << m.color.b);
        CHECK(m.scale.x > 0 && m.scale.y > 0 && m.scale.z > 0, "a node without size");
        CHECK(m.type == visualization_msgs::msg::Marker::SPHERE, "node type " << m.type);
        nodes[m.id] = &m;
      }
      else
      {
        CHECK(m.ns == "edges", "a marker of namespace " << m.ns);
        CHECK(m.type == visualization_msgs::msg::Marker::LINE_STRIP || m.type == visualization_msgs::msg::Marker::LINE_LIST, "edge type " << m.type);
        CHECK(m.scale.x > 0, "an edge without width");
        CHECK(m.points.size() == 2, "an edge of " << m.points.size() << " points");
        auto & o = m.pose.position;
        CHECK(o.x == 0 && o.y == 0 && o.z == 0, "edge " << m.id << " is drawn away from its points");
        edges.insert(Edge{m.points[0].x, m.points[0].y, m.points[1].x, m.points[1].y, m.color.r, m.color.g, m.color.b});
      }
    }
    CHECK(nodes.size() == g.scans.size(), nodes.size() << " node markers for " << g.scans.size() << " scans");
    for (auto & s : g.scans)
    {
      auto it = nodes.find(static_cast<long>(s->getId()));
      CHECK(it != nodes.end(), "no marker for scan " << s->getId());
      Pose2d p = s->getPose();
      auto & q = it->second->pose.position;
      CHECK(q.x == p.x && q.y == p.y && q.z == 0, "marker of scan " << s->getId() << " at " << q.x << " " << q.y << ", the scan at " << p.x << " " << p.y);
    }
    for (auto & k : g.constraints)
    {
      Pose2d a = g.scans[k->begin]->getPose(), b = g.scans[k->end]->getPose();
      expected.insert(Edge{a.x, a.y, b.x, b.y, 0, k->switchable ? 1.0 : 0.0, k->switchable ? 0.0 : 1.0});
    }
    CHECK(edges == expected, edges.size() << " edge markers do not show the " << expected.size() << " constraints");
  }
}
