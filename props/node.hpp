// The mapping node in a simulated world: a robot with odometry, a laser, files and virtual time.
// The node is reached through its topics, its service, its parameters and the scan matcher plugin.
#pragma once
#include <ndt_2d/ndt_mapper.hpp>
#include "common.hpp"
#include <atomic>
#include <mutex>
#include <stub/bags.hpp>
#include <stub/time.hpp>
#include <world.hpp>

namespace node
{
using ndt_2d::Constraint;
using ndt_2d::ConstraintPtr;
using ndt_2d::Graph;
using ndt_2d::Point;
using ndt_2d::Pose2d;
using ndt_2d::Scan;
using ndt_2d::ScanPtr;
using pbt::Case;

inline Pose2d compose(const Pose2d & a, const Pose2d & b)
{
  return Pose2d(a.x + b.x * cos(a.theta) - b.y * sin(a.theta), a.y + b.x * sin(a.theta) + b.y * cos(a.theta), a.theta + b.theta);
}
// b as seen from a
inline Pose2d between(const Pose2d & a, const Pose2d & b)
{
  double dx = b.x - a.x, dy = b.y - a.y, c = cos(a.theta), s = sin(a.theta);
  return Pose2d(c * dx + s * dy, -s * dx + c * dy, ref::wrap(b.theta - a.theta));
}
inline bool near(const Pose2d & a, const Pose2d & b, double tol)
{
  return pbt::near(a.x, b.x, tol) && pbt::near(a.y, b.y, tol) && pbt::near(ref::wrap(a.theta - b.theta), 0, tol);
}
inline std::string show(const Pose2d & p) { return "(" + pbt::str(p.x) + " " + pbt::str(p.y) + " " + pbt::str(p.theta) + ")"; }

// ---- The scan matcher of most cases: its answers are a function of what it is asked, and it keeps a record
struct Answer
{
  Pose2d correction;
  Eigen::Matrix3d covariance;
  double score;
};
struct Event
{
  std::string matcher;
  bool background;
  char op;                           // m: match, s: score, p: points
  size_t scan = 0;                   // id of the scan asked about
  Pose2d pose;                       // where it was
  std::vector<size_t> map;           // ids of the scans in the matcher, and where they were
  std::vector<Pose2d> map_poses;
  Answer answer;
};
struct Script
{
  uint64_t salt = 0;
  double shift = 0, turn = 0;        // size of corrections when asked in a callback
  double closure_shift = 0, closure_turn = 0;   // and by the loop closure thread
  unsigned accept = 100;             // percentage of closures with a good score
  unsigned singular = 0;             // percentage of singular covariances
  unsigned slow = 0;                 // percentage of matches in a callback that take 0.4 s of virtual time
  unsigned pause = 0;                // percentage of background matches that take 0.4 s of virtual time
  bool close = false;                // scores of closures near those of other matches
  std::function<double(const Pose2d &)> weight;   // of particles
  bool record = true;
  std::mutex mutex;
  std::vector<Event> events;
  std::map<size_t, ScanPtr> seen;    // scans by id, as far as the matchers were shown them
};
inline Script & script() { static Script s; return s; }

inline uint64_t hash(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

inline Answer answer_for(const Script & s, size_t scan, size_t points, const std::vector<size_t> & map, bool background)
{
  uint64_t h = hash(hash(hash(s.salt, scan), points), background);
  for (auto i : map) h = hash(h, i);
  auto unit = [&]() { h = hash(h, 77); return static_cast<double>(h >> 11) * 0x1p-53; };
  auto sym = [&](double m) { return m * (2 * unit() - 1); };
  Answer a;
  if (background) a.correction = Pose2d(sym(s.closure_shift), sym(s.closure_shift), sym(s.closure_turn));
  else a.correction = Pose2d(sym(s.shift), sym(s.shift), sym(s.turn));
  double sx = 0.01 + 0.1 * unit(), sy = 0.01 + 0.1 * unit(), st = 0.01 + 0.1 * unit(), r = sym(0.8);
  a.covariance << sx * sx, r * sx * sy, 0, r * sx * sy, sy * sy, 0, 0, 0, st * st;
  if (unit() * 100 < s.singular)
  {
    switch (static_cast<int>(unit() * 3))
    {
      case 0: a.covariance.setZero(); break;
      case 1: a.covariance.row(2).setZero(); break;
      default: a.covariance << 1e-4, 1e-4, 0, 1e-4, 1e-4, 0, 0, 0, 1e-4;
    }
  }
  if (!background) a.score = -0.5 - 0.3 * unit();
  else if (s.close && unit() < 0.7) a.score = -0.4 - 0.5 * unit();
  else if (unit() * 100 < s.accept) a.score = -5;
  else a.score = static_cast<int>(unit() * 3) ? -0.1 * unit() : std::nan("");
  return a;
}

class ScriptedMatcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string & name, rclcpp::Node *, double range_max) override { name_ = name; range_ = range_max; }
  void addScans(const std::vector<ScanPtr>::const_iterator & begin, const std::vector<ScanPtr>::const_iterator & end) override
  {
    std::lock_guard<std::mutex> lock(script().mutex);
    for (auto s = begin; s != end; ++s)
    {
      ids_.push_back((*s)->getId());
      poses_.push_back((*s)->getPose());
      script().seen[(*s)->getId()] = *s;
    }
  }
  double matchScan(const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & covariance) const override
  {
    Answer a = ask('m', scan->getId(), scan->getPose(), scan->getPoints().size());
    if (world::background())
    {
      std::unique_lock<std::mutex> lock(script().mutex);
      script().seen[scan->getId()] = scan;
      bool pause = hash(hash(script().salt, scan->getId()), ids_.empty() ? 0 : ids_[0]) % 100 < script().pause;
      lock.unlock();
      if (pause) world::pause(0.4);
    }
    else if (script().slow && hash(script().salt, scan->getId() + scan->getPoints().size()) % 100 < script().slow) world::lapse(0.4);
    pose = a.correction;
    covariance = a.covariance;
    return a.score;
  }
  double scoreScan(const ScanPtr & scan) const override { return ask('s', scan->getId(), scan->getPose(), scan->getPoints().size()).score; }
  double scorePoints(const std::vector<Point> & points, const Pose2d & pose) const override
  {
    if (script().weight) return -script().weight(pose);
    ask('p', 0, pose, points.size());
    return -1.0;
  }
  void reset() override { ids_.clear(); poses_.clear(); }

private:
  Answer ask(char op, size_t scan, const Pose2d & pose, size_t points) const
  {
    std::lock_guard<std::mutex> lock(script().mutex);
    bool bg = world::background();
    Answer a = answer_for(script(), scan, points, ids_, bg);
    if (script().record) script().events.push_back({name_, bg, op, scan, pose, ids_, poses_, a});
    return a;
  }
  std::string name_;
  double range_ = 0;
  std::vector<size_t> ids_;
  std::vector<Pose2d> poses_;
};
inline void register_matcher()
{
  stub::plugin_registry()["verif::Scripted"] = [] {
      return std::static_pointer_cast<void>(std::static_pointer_cast<ndt_2d::ScanMatcher>(std::make_shared<ScriptedMatcher>()));
    };
}

// ---- A value copy of a stored map
struct Map
{
  struct S { size_t id; Pose2d pose; std::vector<Point> points; };
  struct C { size_t begin, end; Eigen::Vector3d t; Eigen::Matrix3d info; bool sw; };
  std::vector<S> scans;
  std::vector<C> constraints;
};
inline Map copy(const Graph & g)
{
  Map m;
  for (auto & s : g.scans) m.scans.push_back({s->getId(), s->getPose(), s->getPoints()});
  for (auto & k : g.constraints) m.constraints.push_back({k->begin, k->end, k->transform, k->information, k->switchable});
  return m;
}
inline bool same(const Pose2d & a, const Pose2d & b) { return a.x == b.x && a.y == b.y && a.theta == b.theta; }
template <class M> std::string bits(const M & m) { return std::string(reinterpret_cast<const char *>(m.data()), sizeof(double) * m.size()); }
inline bool same(const Map::C & p, const Map::C & q)
{
  return p.begin == q.begin && p.end == q.end && p.sw == q.sw && bits(p.t) == bits(q.t) && bits(p.info) == bits(q.info);
}
inline bool same(const Map::S & p, const Map::S & q, bool pose = true)
{
  if (p.id != q.id || p.points.size() != q.points.size() || (pose && !same(p.pose, q.pose))) return false;
  for (size_t i = 0; i < p.points.size(); ++i)
    if (p.points[i].x != q.points[i].x || p.points[i].y != q.points[i].y) return false;
  return true;
}
// Is `b` the map `a` with `scans` and `constraints` appended?
inline void check_appended(const Map & a, const Map & b, size_t scans, size_t constraints, const std::string & what)
{
  CHECK(b.scans.size() == a.scans.size() + scans, what << ": " << a.scans.size() << " scans became " << b.scans.size() << ", expected " << scans << " more");
  CHECK(b.constraints.size() == a.constraints.size() + constraints, what << ": " << a.constraints.size() << " constraints became " << b.constraints.size() << ", expected " << constraints << " more");
  for (size_t i = 0; i < a.scans.size(); ++i)
    CHECK(same(a.scans[i], b.scans[i]), what << ": scan " << i << " changed: id " << a.scans[i].id << " at " << show(a.scans[i].pose) << " became id " << b.scans[i].id << " at " << show(b.scans[i].pose));
  for (size_t i = 0; i < a.constraints.size(); ++i)
    CHECK(same(a.constraints[i], b.constraints[i]), what << ": constraint " << i << " changed");
}
inline void check_same(const Map & a, const Map & b, const std::string & what) { check_appended(a, b, 0, 0, what); }

// ---- The world of a node
struct Config
{
  bool mapping = true, filter = false, barycenter = true;
  int rolling = 10, search_limit = 3, node_limit = 25;
  double travel = 0.1, rotation = 1.0, search = 0.2, max_range = -1;
  double resolution = 0.05, threshold = 0.25, timeout = 0.2;
  double alpha[5] = {0, 0, 0, 0, 0};
  int min_particles = 20, max_particles = 60;
  double kld_err = 0.01, kld_z = 2.3;
  double window = 0.02, step = 0.01; // of the NDT matcher, so that it is quick
  double angle_window = 0.02, angle_step = 0.01;
  int beams = 20;
  std::string map_file, robot = "base_link", odom = "odom";
  bool ndt = false;                  // the real matcher
  std::function<void(rclcpp::NodeOptions &)> more;       // other parameters
  std::string show() const
  {
    std::ostringstream o;
    o << (filter ? "filter" : mapping ? "mapping" : "localising") << (ndt ? " ndt" : "") << " rolling " << rolling << " travel " << pbt::shortstr(travel) << "/" << pbt::shortstr(rotation)
      << " search " << pbt::shortstr(search) << "/" << search_limit << (barycenter ? " barycenters" : " poses") << " optimise " << node_limit;
    if (!map_file.empty()) o << " map " << map_file;
    return o.str();
  }
};

typedef sensor_msgs::msg::LaserScan Laser;
typedef ndt_2d::srv::Configure Configure;
enum { kEnable = 1, kDisable = 2, kLoad = 4, kSave = 8 };

class Sim
{
public:
  explicit Sim(const Config & config, bool scripted = true) : cfg(config)
  {
    if (scripted) register_matcher();
    rclcpp::NodeOptions o;
    o.set("resolution", cfg.resolution).set("occupancy_threshold", cfg.threshold)
    .set("minimum_travel_distance", cfg.travel).set("minimum_travel_rotation", cfg.rotation)
    .set("rolling_depth", cfg.rolling).set("robot_frame", cfg.robot).set("odom_frame", cfg.odom)
    .set("transform_timeout", cfg.timeout).set("use_barycenter", cfg.barycenter)
    .set("global_search_size", cfg.search).set("global_search_limit", cfg.search_limit)
    .set("optimization_node_limit", cfg.node_limit).set("use_particle_filter", cfg.filter)
    .set("enable_mapping", cfg.mapping).set("max_range", cfg.max_range).set("map_file", cfg.map_file)
    .set("scan_matcher_type", cfg.ndt ? "ndt_2d::ScanMatcherNDT" : "verif::Scripted");
    for (int i = 0; i < 5; ++i) o.set("odom_alpha" + std::to_string(i + 1), cfg.alpha[i]);
    o.set("min_particles", cfg.min_particles).set("max_particles", cfg.max_particles).set("kld_err", cfg.kld_err).set("kld_z", cfg.kld_z);
    for (std::string m : {"local_scan_matcher", "global_scan_matcher"})
      o.set(m + ".search_linear_size", cfg.window).set(m + ".search_linear_resolution", cfg.step)
      .set(m + ".search_angular_size", cfg.angle_window).set(m + ".search_angular_resolution", cfg.angle_step).set(m + ".laser_max_beams", cfg.beams);
    if (cfg.more) cfg.more(o);
    stub::tf_lookup() = [this](const std::string & t, const std::string & s, int64_t ns, geometry_msgs::msg::Transform & out) {
        return lookup(t, s, ns, out);
      };
    mapper.reset(new ndt_2d::Mapper(o));
  }
  ~Sim()
  {
    world::stop();
    mapper.reset();
    stub::tf_lookup() = nullptr;
  }

  // ---- The robot
  Pose2d odom;                       // in the odometry frame, at `stamp` and after it unless it moves
  int64_t stamp = 0;
  Pose2d during;                     // motion per second during a scan, in the robot's frame at its start
  bool odom_known = true, laser_known = true, end_known = true;
  geometry_msgs::msg::Transform mounting;
  std::string laser_frame = "laser";
  double slow = 0;                   // seconds a transform takes, while other threads go on

  Pose2d odom_at(int64_t ns) const
  {
    double t = ns > stamp && stamp ? static_cast<double>(ns - stamp) * 1e-9 : 0;
    return compose(odom, Pose2d(during.x * t, during.y * t, during.theta * t));
  }
  bool lookup(const std::string & target, const std::string & source, int64_t ns, geometry_msgs::msg::Transform & out) const
  {
    if (target == cfg.robot && source == laser_frame)
    {
      if (!laser_known) return false;
      out = mounting;
      return true;
    }
    if (target == cfg.odom && source == cfg.robot)
    {
      if (slow > 0) world::lapse(slow);
      if (!odom_known || (!end_known && ns > stamp)) return false;
      // the robot is only known for the time of the simulation
      if (ns != 0 && (ns < world::begin_ns() - 100000000000LL || ns > world::begin_ns() + 1000000000000000LL)) return false;
      Pose2d p = odom_at(ns ? ns : stamp);
      out.translation.x = p.x;
      out.translation.y = p.y;
      out.rotation.z = sin(p.theta / 2);
      out.rotation.w = cos(p.theta / 2);
      return true;
    }
    return false;
  }

  // ---- What a user does
  Laser laser(const std::vector<float> & ranges) const
  {
    Laser m;
    m.header.frame_id = laser_frame;
    m.header.stamp = rclcpp::Time(stub::now_ns());
    m.angle_min = -1.5f;
    m.angle_max = 1.5f;
    m.angle_increment = ranges.size() > 1 ? 3.0f / static_cast<float>(ranges.size() - 1) : 0.1f;
    m.range_min = 0.1f;
    m.range_max = 10;
    m.ranges = ranges;
    return m;
  }
  void send(const Laser & m)
  {
    stamp = rclcpp::Time(m.header.stamp).nanoseconds();
    mapper->stub_receive<Laser>("scan", m);
  }
  void pose(const Pose2d & p, double vx, double vy, double vt, const std::string & frame = "map")
  {
    geometry_msgs::msg::PoseWithCovarianceStamped m;
    m.header.frame_id = frame;
    m.header.stamp = rclcpp::Time(stub::now_ns());
    m.pose.pose.position.x = p.x;
    m.pose.pose.position.y = p.y;
    m.pose.pose.orientation.z = sin(p.theta / 2);
    m.pose.pose.orientation.w = cos(p.theta / 2);
    m.pose.covariance[0] = vx;
    m.pose.covariance[7] = vy;
    m.pose.covariance[35] = vt;
    mapper->stub_receive<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", m);
  }
  void call(int action, const std::string & file = "")
  {
    Configure::Request r;
    r.action = action;
    r.filename = file;
    mapper->stub_call<Configure>("configure", r);
  }
  // The stored map, through a saved file
  Map map()
  {
    std::string name = "snapshot" + std::to_string(++snapshots_);
    call(kSave, name);
    Map m = copy(Graph(cfg.barycenter, name));
    stub::bags().erase(name);
    return m;
  }
  void advance(double s) { world::advance(s); }

  // ---- What a user sees
  nav_msgs::msg::OccupancyGrid & occupancy() { return mapper->stub_publisher<nav_msgs::msg::OccupancyGrid>("map").last; }
  visualization_msgs::msg::MarkerArray & markers() { return mapper->stub_publisher<visualization_msgs::msg::MarkerArray>("graph").last; }
  size_t maps_published() { return mapper->stub_publisher<nav_msgs::msg::OccupancyGrid>("map").count; }
  size_t clouds() { return cfg.filter ? mapper->stub_publisher<geometry_msgs::msg::PoseArray>("particlecloud").count : 0; }
  geometry_msgs::msg::PoseArray & cloud() { return mapper->stub_publisher<geometry_msgs::msg::PoseArray>("particlecloud").last; }
  // The robot in the map by the last broadcast transform, for an odometry pose
  bool robot_by_tf(const Pose2d & o, Pose2d & out) const
  {
    if (stub::tf_sent().empty()) return false;
    auto & t = stub::tf_sent().back().transform;
    out = compose(Pose2d(t.translation.x, t.translation.y, 2 * std::atan2(t.rotation.z, t.rotation.w)), o);
    return true;
  }
  std::vector<Event> take_events()
  {
    std::lock_guard<std::mutex> lock(script().mutex);
    std::vector<Event> e;
    e.swap(script().events);
    return e;
  }

  Config cfg;
  std::unique_ptr<ndt_2d::Mapper> mapper;

private:
  int snapshots_ = 0;
};

// A fresh world and script
inline void begin(Case & c)
{
  world::reset(c.seed());
  Script & s = script();
  s.salt = c.seed();
  s.shift = s.turn = s.closure_shift = s.closure_turn = 0;
  s.accept = 100;
  s.singular = s.pause = s.slow = 0;
  s.record = true;
  s.close = false;
  s.weight = nullptr;
  s.events.clear();
  s.seen.clear();
}
}  // namespace node
