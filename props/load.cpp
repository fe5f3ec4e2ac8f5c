// C29: a node that loads a map at run time against one that was started with it
#include "play.hpp"
using namespace node;

namespace
{
enum Kind { kScan, kWait, kPose, kRequest };
struct Step
{
  Kind kind;
  Pose2d odom, pose;
  std::vector<float> ranges;
  double v[3] = {0, 0, 0}, t = 0;
  int action = 0;
  bool foreign = false;
};
std::string text(const Pose2d & p) { return pbt::str(p.x) + " " + pbt::str(p.y) + " " + pbt::str(p.theta); }

// What happens after the load, and what is seen
std::vector<std::string> tail(Sim & s, const std::vector<Step> & steps)
{
  std::vector<std::string> seen;
  size_t tf = stub::tf_sent().size(), maps = s.maps_published(), graphs = s.mapper->stub_publisher<visualization_msgs::msg::MarkerArray>("graph").count, clouds = s.clouds();
  int number = 0;
  for (auto & step : steps)
  {
    std::ostringstream o;
    o.precision(17);
    s.odom = step.odom;
    switch (step.kind)
    {
      case kScan: s.send(s.laser(step.ranges)); o << "scan of " << step.ranges.size(); break;
      case kWait: s.advance(step.t); o << "wait " << step.t; break;
      case kPose: s.pose(step.pose, step.v[0], step.v[1], step.v[2], step.foreign ? "odom2" : "map"); o << "pose"; break;
      case kRequest: s.call(step.action, "kept" + std::to_string(number)); o << "request " << step.action; break;
    }
    stub::bags().erase("kept" + std::to_string(number));
    o << " (step " << number++ << "): ";
    std::string head = o.str();
    auto add = [&](const std::string & t) { seen.push_back(head + t); };
    Map m = s.map();
    add("map of " + std::to_string(m.scans.size()) + " scans and " + std::to_string(m.constraints.size()) + " constraints");
    for (auto & q : m.scans)
    {
      std::ostringstream t;
      t << "stored scan " << q.id << " at " << text(q.pose) << " points";
      for (auto & x : q.points) t << " " << pbt::str(x.x) << "," << pbt::str(x.y);
      add(t.str());
    }
    for (auto & k : m.constraints)
    {
      std::ostringstream t;
      t.precision(17);
      t << "stored constraint " << k.begin << " " << k.end << (k.sw ? " switchable " : " ") << k.t.transpose() << " information " << k.info.row(0) << " " << k.info.row(1) << " " << k.info.row(2);
      add(t.str());
    }
    for (auto & e : s.take_events())
    {
      std::ostringstream t;
      t << e.matcher << (e.background ? " (loop closure) " : " ") << e.op << " scan " << e.scan << " at " << text(e.pose) << " against";
      for (size_t i = 0; i < e.map.size(); ++i) t << " " << e.map[i] << "@" << text(e.map_poses[i]);
      add(t.str());
    }
    // (the phase of the publishing thread differs: the latest transform)
    if (tf < stub::tf_sent().size())
    {
      tf = stub::tf_sent().size();
      auto & q = stub::tf_sent().back().transform;
      add("transform " + pbt::str(q.translation.x) + " " + pbt::str(q.translation.y) + " " + pbt::str(q.rotation.z) + " " + pbt::str(q.rotation.w));
    }
    if (s.maps_published() != maps)
    {
      auto & g = s.occupancy();
      std::ostringstream t;
      t << s.maps_published() - maps << " maps published, " << g.info.width << " x " << g.info.height << " at " << pbt::str(g.info.origin.position.x) << " " << pbt::str(g.info.origin.position.y) << " cells ";
      for (auto v : g.data) t << (v < 0 ? '?' : v > 0 ? '#' : '.');
      add(t.str());
      maps = s.maps_published();
    }
    size_t now = s.mapper->stub_publisher<visualization_msgs::msg::MarkerArray>("graph").count;
    if (now != graphs)
    {
      std::ostringstream t;
      t << now - graphs << " graphs published:";
      for (auto & q : s.markers().markers)
      {
        t << " " << q.ns << q.id << "@" << pbt::str(q.pose.position.x) << "," << pbt::str(q.pose.position.y);
        for (auto & x : q.points) t << "-" << pbt::str(x.x) << "," << pbt::str(x.y);
      }
      add(t.str());
      graphs = now;
    }
    if (s.clouds() != clouds)
    {
      std::ostringstream t;
      t << s.clouds() - clouds << " clouds of " << s.cloud().poses.size() << ":";
      for (size_t i = 0; i < std::min<size_t>(3, s.cloud().poses.size()); ++i) t << " " << pbt::str(s.cloud().poses[i].position.x) << "," << pbt::str(s.cloud().poses[i].position.y) << "," << pbt::str(s.cloud().poses[i].orientation.z);
      add(t.str());
      clouds = s.clouds();
    }
  }
  return seen;
}

std::vector<float> some_beams(Case & c)
{
  std::vector<float> r;
  size_t n = c.chance(10) ? 0 : 1 + c.below(12);
  for (size_t i = 0; i < n; ++i) r.push_back(static_cast<float>(c.real(0.5, 4)));
  return r;
}
}  // namespace

PBT_TEST(C29, replaced, 2500, 80000, "a history (up to 40 scans, loop closures and optimisations, filtering, localising, earlier loads), then a map is loaded, then up to 40 scans, poses, requests and waits: "
         "everything seen after the load against a node started with that map; non-trivial: the old map had a scan and at least 4 scans follow a pose")
{
  begin(c);
  bool filter = c.chance(25), mapping = c.chance(75), ndt = !filter && c.chance(12);
  Config f = any_config(c, filter, mapping);
  f.ndt = ndt;
  f.min_particles = f.max_particles = 20;
  random_script(c);
  f.rolling = static_cast<int>(c.pick(std::vector<int>{3, 1, 2, 10}));
  f.search = c.pick(std::vector<double>{1, 0, 3});
  f.node_limit = static_cast<int>(c.pick(std::vector<int>{3, 1, 25, 0}));
  f.travel = c.pick(std::vector<double>{0.1, 0.05});
  script().closure_shift = script().closure_turn = 0.02;
  script().accept = 80;
  script().close = c.chance(30);
  if (c.chance(40) || filter || !mapping)
  {
    f.map_file = "start";
    write_map(c, f.map_file, c.below(15), 0.7, f.barycenter);
  }
  write_map(c, "other", c.below(10), 0.7, f.barycenter);
  write_map(c, "new", c.chance(10) ? 0 : 1 + c.below(14), 0.7, f.barycenter);
  Map fresh = copy(Graph(f.barycenter, "new"));
  stub::Bag file = stub::bags()["new"];

  // What follows
  std::vector<Step> steps;
  Pose2d at = gen::pose(c, 3);
  size_t n = 2 + c.size(40), follow = 0;
  bool told = false;
  for (size_t i = 0; i < n; ++i)
  {
    Step s;
    s.odom = at;
    switch (told ? c.weighted({14, 5, 1, 1}) : c.weighted({1, 1, 3, 1}))
    {
      case 0:
        s.kind = kScan;
        at = compose(at, Pose2d(c.coord(0.3), c.coord(0.2), c.coord(0.6)));
        s.odom = at;
        s.ranges = some_beams(c);
        follow += told;
        break;
      case 1: s.kind = kWait; s.t = c.pick(std::vector<double>{1.0, 0.5, 2.0}); break;
      case 2:
        s.kind = kPose;
        s.pose = fresh.scans.empty() ? gen::pose(c, 2) : compose(fresh.scans[c.below(fresh.scans.size())].pose, Pose2d(c.coord(0.5), c.coord(0.5), c.coord(0.5)));
        if (!filter) for (double & v : s.v) v = c.pick(std::vector<double>{0.25, 0.01, 1e-4});
        s.foreign = c.chance(10);
        told = told || !s.foreign;
        break;
      default: s.kind = kRequest; s.action = c.pick(std::vector<int>{kEnable, kDisable, kSave}); if (s.action == kDisable) told = false;
    }
    steps.push_back(s);
  }
  Step wait;
  wait.kind = kWait;
  wait.t = 2;
  wait.odom = at;
  steps.push_back(wait);

  auto first = some_beams(c);
  first.resize(3, 1.0f);
  geometry_msgs::msg::Transform mounting;
  std::vector<std::string> a, b;
  bool enabled;
  int action = kLoad | c.pick(std::vector<int>{0, 0, kEnable, kDisable});
  size_t old_scans;
  std::set<std::string> modes;
  {
    // The node that has a past
    Play p(c, f, 0);
    p.exact_filter = filter;
    size_t k = c.chance(60) ? 10 + c.below(40) : c.size(20);
    double total = 0;
    for (size_t i = 0; i < k; ++i)
    {
      if (!p.localised && c.chance(60)) { p.pose(); continue; }
      switch (c.weighted({12, 3, 1, 1}))
      {
        case 0: p.move(); p.laser(false); break;
        case 1: p.s.advance(1.0); total += 1; p.tell("1 s"); break;
        case 2: p.configure(c.pick(std::vector<int>{kEnable, kDisable})); break;
        default: if (c.chance(30)) p.configure(kLoad, "other");
      }
    }
    // it has had a laser scan before, and everything it has to publish was published
    p.s.during = Pose2d();
    p.s.send(p.s.laser(first));
    p.s.advance(1.0);
    old_scans = p.s.map().scans.size();
    stub::bags()["new"] = file;
    c.note << "; load " << action << "; " << steps.size() << " steps";
    p.s.call(action, "new");
    enabled = (action & kEnable) ? true : (action & kDisable) ? false : p.enabled;
    script().events.clear();
    mounting = p.s.mounting;
    p.s.send(p.s.laser(first));
    a = tail(p.s, steps);
  }
  {
    // The node without
    uint64_t salt = script().salt;
    world::reset(salt);
    stub::bags()["new"] = file;
    script().events.clear();
    Config g = f;
    g.mapping = enabled;
    g.map_file = "new";
    Sim s(g);
    s.mounting = mounting;
    s.send(s.laser(first));
    b = tail(s, steps);
  }
  for (size_t i = 0; i < std::max(a.size(), b.size()); ++i)
  {
    std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
    CHECK(x == y, "after loading:\n  " << x.substr(0, 600) << "\nwhen started with the map:\n  " << y.substr(0, 600));
  }
  if (old_scans && follow >= 4) c.nontrivial();
  c.label(filter ? "filter" : enabled ? "mapping" : "localising");
}
