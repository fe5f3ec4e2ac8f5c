// C34: what is published is the stored map
#include "busy.hpp"
#include <ndt_2d/occupancy_grid.hpp>
using namespace node;

namespace
{
struct Published
{
  // Publishing the map takes slow_map seconds, the graph slow_graph
  Published(Sim & s_, double slow_map_, double slow_graph_) : s(s_), slow_map(slow_map_), slow_graph(slow_graph_)
  {
    s.mapper->stub_publisher<nav_msgs::msg::OccupancyGrid>("map").on_publish = [this](const nav_msgs::msg::OccupancyGrid & m) {
        ++maps;
        stamp(m.header);
        if (slow_map > 0) world::pause(slow_map);
      };
    s.mapper->stub_publisher<visualization_msgs::msg::MarkerArray>("graph").on_publish = [this](const visualization_msgs::msg::MarkerArray & m) {
        ++graphs;
        if (!m.markers.empty()) stamp(m.markers[0].header);
        if (slow_graph > 0) world::pause(slow_graph);
      };
  }
  // Called by the publishing thread
  void stamp(const std_msgs::msg::Header & h)
  {
    if (h.frame_id != "map") wrong = "a map in frame " + h.frame_id;
    int64_t age = stub::now_ns() - rclcpp::Time(h.stamp).nanoseconds();
    if (age < 0 || age > static_cast<int64_t>((slow_map + late) * 1e9)) wrong = "a map of time " + std::to_string(rclcpp::Time(h.stamp).nanoseconds()) + " at " + std::to_string(stub::now_ns());
  }
  // A period of the publishing thread has passed
  void check(const std::string & when)
  {
    CHECK(wrong.empty(), wrong);
    CHECK(s.mapper->stub_publisher<nav_msgs::msg::OccupancyGrid>("map").qos.latched(), "who subscribes to the map later does not get it");
    // The graph as it is stored
    s.call(kSave, "now");
    Graph g(s.cfg.barycenter, "now");
    stub::bags().erase("now");
    if (!maps)
    {
      CHECK(g.scans.empty(), "no map was published " << when);
      return;
    }
    ++compared;
    ndt_2d::OccupancyGrid grid(s.cfg.resolution, s.cfg.threshold);
    nav_msgs::msg::OccupancyGrid want;
    grid.getMsg(g.scans, want);
    auto & got = s.occupancy();
    CHECK(got.info.width == want.info.width && got.info.height == want.info.height, "the published map is " << got.info.width << " x " << got.info.height << ", the stored one " << want.info.width << " x " << want.info.height << " " << when);
    CHECK(got.info.resolution == want.info.resolution, "resolution " << got.info.resolution << " " << when);
    CHECK_NEAR(got.info.origin.position.x, want.info.origin.position.x, 1e-9, "origin of the map " << when);
    CHECK_NEAR(got.info.origin.position.y, want.info.origin.position.y, 1e-9, "origin of the map " << when);
    for (size_t i = 0; i < want.data.size(); ++i)
      CHECK(got.data[i] == want.data[i], "cell " << i << " of the published map is " << int(got.data[i]) << ", of the stored one " << int(want.data[i]) << " " << when);
    auto & markers = s.markers().markers;
    CHECK(markers.size() == g.scans.size() + g.constraints.size(), markers.size() << " markers for " << g.scans.size() << " scans and " << g.constraints.size() << " constraints " << when);
    std::set<size_t> ids;
    std::vector<std::array<double, 5>> edges, expect;
    for (auto & m : markers)
    {
      CHECK(m.header.frame_id == "map", "a marker in frame " << m.header.frame_id);
      if (m.points.empty())
      {
        size_t i = static_cast<size_t>(m.id);
        CHECK(i < g.scans.size() && ids.insert(i).second, "node marker " << m.id << " " << when);
        CHECK(m.pose.position.x == g.scans[i]->getPose().x && m.pose.position.y == g.scans[i]->getPose().y, "the marker of scan " << i << " is at " << m.pose.position.x << " " << m.pose.position.y
              << ", the scan at " << show(g.scans[i]->getPose()) << " " << when);
      }
      else
      {
        CHECK(m.points.size() == 2, "points of an edge marker");
        edges.push_back({m.points[0].x, m.points[0].y, m.points[1].x, m.points[1].y, m.color.g});
      }
    }
    for (auto & k : g.constraints)
    {
      auto a = g.scans[k->begin]->getPose(), b = g.scans[k->end]->getPose();
      expect.push_back({a.x, a.y, b.x, b.y, k->switchable ? 1.0 : 0.0});
    }
    std::sort(edges.begin(), edges.end());
    std::sort(expect.begin(), expect.end());
    CHECK(edges == expect, "the edge markers are not those of the constraints " << when);
  }
  Sim & s;
  const double slow_map, slow_graph;
  double late = 0;                   // how old it may be besides
  size_t maps = 0, graphs = 0, compared = 0;
  std::string wrong;
};
}  // namespace

PBT_TEST(C34, current, 3000, 100000, "histories of up to 40 scans, poses, requests and waits in all modes, with loop closures and optimisations, at several resolutions and thresholds: 0.3 s after whatever happened, the published map and markers against the stored map; "
         "non-trivial: at least 3 comparisons with at least 3 scans in the map")
{
  begin(c);
  bool filter = c.chance(15), mapping = c.chance(85);
  Config f = any_config(c, filter, mapping);
  random_script(c);
  f.resolution = c.pick(std::vector<double>{0.25, 0.1, 0.5, 0.05});
  f.threshold = c.pick(std::vector<double>{0.25, 0.05, 0.5, 0.9});
  f.search = c.pick(std::vector<double>{1, 0, 3});
  f.rolling = static_cast<int>(c.pick(std::vector<int>{2, 1, 10}));
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{3, 1, 25}));
  script().closure_shift = script().closure_turn = 0.1;
  script().accept = 70;
  script().pause = c.chance(25) ? 50 : 0;
  if (filter || !mapping || c.chance(30))
  {
    f.map_file = "start";
    write_map(c, f.map_file, c.below(8), 1, f.barycenter);
  }
  write_map(c, "other", c.below(8), 1, f.barycenter);
  Play p(c, f, 0);
  p.s.odom = Pose2d(c.coord(5), c.coord(5), c.angle());
  // Publishing may take a while, during which the map changes
  double slow_map = 0, slow_graph = 0;
  if (c.chance(30))
  {
    slow_map = c.pick(std::vector<double>{0.07, 0, 0.3});
    slow_graph = c.pick(std::vector<double>{0.07, 0, 0.3});
  }
  Published seen(p.s, slow_map, slow_graph);
  size_t n = 3 + c.size(40), checks = 0, saves = 0;
  for (size_t i = 0; i <= n; ++i)
  {
    if (!p.localised && c.chance(60)) p.pose();
    else
      switch (c.weighted({12, 2, 1, 1, 1}))
      {
        case 0: p.move(); p.laser(); break;
        case 1: p.s.advance(c.pick(std::vector<double>{1.0, 0.1, 2.0})); p.tell("wait"); break;
        case 2: p.pose(); break;
        case 3: p.configure(c.pick(std::vector<int>{kEnable, kDisable})); break;
        default:
          if (c.chance(60)) p.configure(kSave | c.pick(std::vector<int>{0, 0, 0, kEnable, kDisable}), "kept" + std::to_string(++saves));
          else p.configure(kLoad | c.pick(std::vector<int>{0, 0, kEnable, kDisable}), "other");
      }
    if (i < n && c.chance(50)) continue;
    // A period in which nothing happens, but what the background does
    Map before = p.s.map();
    p.s.advance(0.3 + 2 * (slow_map + slow_graph));
    Map mid = p.s.map();
    bool closing = p.mapping && f.search > 0;
    if (closing && ((script().pause && world::pausing()) || mid.constraints.size() != before.constraints.size())) continue;
    bool moved = false;
    for (size_t k = 0; k < mid.scans.size(); ++k) moved = moved || !same(mid.scans[k], before.scans[k]);
    if (moved) continue;
    seen.check("after step " + std::to_string(i));
    if (mid.scans.size() >= 3) ++checks;
    // Nothing is published as long as nothing changes
    if (c.chance(30))
    {
      size_t was = seen.maps, graphs = seen.graphs;
      p.s.advance(0.7);
      Map after = p.s.map();
      bool changed = after.constraints.size() != mid.constraints.size() || (script().pause && world::pausing());
      for (size_t k = 0; k < mid.scans.size(); ++k) changed = changed || !same(mid.scans[k], after.scans[k]);
      if (!changed) CHECK(seen.maps == was && seen.graphs == graphs, "a map that did not change was published " << seen.maps - was << " times more");
    }
  }
  CHECK(seen.wrong.empty(), seen.wrong);
  if (checks >= 3) c.nontrivial();
  c.label(filter ? "filter" : mapping ? "mapping" : "localising");
}

PBT_TEST(C34, interrupted, 2000, 80000, "histories of up to 40 scans, poses, requests and waits while mapping with loop closures, all threads interrupted anywhere; now and then nothing happens for a while, and the published map and markers are compared with the stored map; "
         "non-trivial: at least one comparison with at least 4 scans in the map, and 10 interruptions")
{
  begin(c);
  Config f = busy_config(c, false, true);
  f.resolution = c.pick(std::vector<double>{0.25, 0.5});
  bool loads = c.chance(25), modes = c.chance(40);
  if (loads) write_map(c, "other", c.below(6), 0.7, f.barycenter);
  Busy b(c, f, busy_percent(c));
  Published seen(b.s, 0, 0);
  seen.late = 1e5;
  size_t n = 3 + c.size(38), checks = 0;
  for (size_t i = 0; i <= n; ++i)
  {
    busy_step(b, c, loads, modes);
    if (i < n && !c.chance(8)) continue;
    b.quiet();
    b.s.advance(0.5);
    seen.check("after step " + std::to_string(i));
    checks += b.scans >= 4;
    b.resume();
  }
  if (checks && b.count >= 10) c.nontrivial();
}
