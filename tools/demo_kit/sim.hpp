// A small world around the node, for demonstrations
#pragma once
#include <ndt_2d/ndt_mapper.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <stub/bags.hpp>
#include <stub/time.hpp>
#include <world.hpp>
using ndt_2d::Pose2d;
using ndt_2d::Point;
using ndt_2d::ScanPtr;

#define EXPECT(x) do { if (!(x)) { std::printf("FAILED line %d: %s\n", __LINE__, #x); std::fflush(stdout); std::_Exit(1); } } while (0)
inline bool near(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol; }

// A scan matcher that answers as told
struct Told
{
  std::function<double(const ScanPtr &, Pose2d &, Eigen::Matrix3d &, const std::vector<ScanPtr> &)> match;
  std::function<double(const Pose2d &)> weight;
};
inline Told & told() { static Told t; return t; }
class ToldMatcher : public ndt_2d::ScanMatcher
{
public:
  void initialize(const std::string &, rclcpp::Node *, double) override {}
  void addScans(const std::vector<ScanPtr>::const_iterator & b, const std::vector<ScanPtr>::const_iterator & e) override { scans_.insert(scans_.end(), b, e); }
  double matchScan(const ScanPtr & scan, Pose2d & pose, Eigen::Matrix3d & covariance) const override
  {
    pose = Pose2d();
    covariance = Eigen::Matrix3d::Identity() * 0.01;
    return told().match ? told().match(scan, pose, covariance, scans_) : -0.6;
  }
  double scoreScan(const ScanPtr &) const override { return -0.5; }
  double scorePoints(const std::vector<Point> &, const Pose2d & p) const override { return told().weight ? -told().weight(p) : -1.0; }
  void reset() override { scans_.clear(); }
private:
  std::vector<ScanPtr> scans_;
};

struct Robot
{
  rclcpp::NodeOptions options;
  Pose2d odom, during;               // pose in the odometry frame; motion per second during scans
  geometry_msgs::msg::Transform mounting;
  int64_t stamp = 0;
  std::unique_ptr<ndt_2d::Mapper> mapper;

  Robot()
  {
    world::reset(1);
    mounting.rotation.w = 1;
    stub::plugin_registry()["demo::Told"] = [] {
        return std::static_pointer_cast<void>(std::static_pointer_cast<ndt_2d::ScanMatcher>(std::make_shared<ToldMatcher>()));
      };
    options.set("scan_matcher_type", "demo::Told").set("enable_mapping", true);
    stub::tf_lookup() = [this](const std::string & t, const std::string & s, int64_t ns, geometry_msgs::msg::Transform & out) {
        if (t == "base_link" && s == "laser") { out = mounting; return true; }
        if (t != "odom" || s != "base_link") return false;
        double dt = ns > stamp && stamp ? (ns - stamp) * 1e-9 : 0, c = std::cos(odom.theta), n = std::sin(odom.theta);
        out.translation.x = odom.x + (c * during.x - n * during.y) * dt;
        out.translation.y = odom.y + (n * during.x + c * during.y) * dt;
        out.rotation.z = std::sin((odom.theta + during.theta * dt) / 2);
        out.rotation.w = std::cos((odom.theta + during.theta * dt) / 2);
        return true;
      };
  }
  void start()
  {
    mapper.reset(new ndt_2d::Mapper(options));
    world::advance(0);
  }
  ~Robot()
  {
    world::stop();
    mapper.reset();
    stub::tf_lookup() = nullptr;
  }
  void laser(const std::vector<float> & ranges, float time_increment = 0, float range_max = 10)
  {
    sensor_msgs::msg::LaserScan m;
    m.header.frame_id = "laser";
    stamp = stub::now_ns();
    m.header.stamp = rclcpp::Time(stamp);
    m.angle_min = -1;
    m.angle_max = 1;
    m.angle_increment = ranges.size() > 1 ? 2.0f / (ranges.size() - 1) : 0.1f;
    m.time_increment = time_increment;
    m.range_max = range_max;
    m.ranges = ranges;
    mapper->stub_receive<sensor_msgs::msg::LaserScan>("scan", m);
  }
  void scan(double x, double y, double theta = 0, size_t beams = 9)
  {
    odom = Pose2d(x, y, theta);
    laser(std::vector<float>(beams, 2.0f));
  }
  void pose(double x, double y, double theta = 0, double vx = 0.01, double vy = 0.01, double vt = 0.01, const std::string & frame = "map")
  {
    geometry_msgs::msg::PoseWithCovarianceStamped m;
    m.header.frame_id = frame;
    m.header.stamp = rclcpp::Time(stub::now_ns());
    m.pose.pose.position.x = x;
    m.pose.pose.position.y = y;
    m.pose.pose.orientation.z = std::sin(theta / 2);
    m.pose.pose.orientation.w = std::cos(theta / 2);
    m.pose.covariance[0] = vx;
    m.pose.covariance[7] = vy;
    m.pose.covariance[35] = vt;
    mapper->stub_receive<geometry_msgs::msg::PoseWithCovarianceStamped>("initialpose", m);
  }
  void call(int action, const std::string & file = "")
  {
    ndt_2d::srv::Configure::Request r;
    r.action = action;
    r.filename = file;
    mapper->stub_call<ndt_2d::srv::Configure>("configure", r);
  }
  void enable() { call(1); }
  void disable() { call(2); }
  void load(const std::string & f) { call(4, f); }
  void save(const std::string & f) { call(8, f); }
  std::unique_ptr<ndt_2d::Graph> map()
  {
    std::string name = "copy" + std::to_string(++copies_);
    save(name);
    std::unique_ptr<ndt_2d::Graph> g(new ndt_2d::Graph(true, name));
    stub::bags().erase(name);
    return g;
  }
  void wait(double s) { world::advance(s); }
  // Robot in the map, by the last broadcast transform
  Pose2d by_tf(const Pose2d & o)
  {
    auto & t = stub::tf_sent().back().transform;
    double th = 2 * std::atan2(t.rotation.z, t.rotation.w);
    return Pose2d(t.translation.x + o.x * std::cos(th) - o.y * std::sin(th), t.translation.y + o.x * std::sin(th) + o.y * std::cos(th), th + o.theta);
  }
private:
  int copies_ = 0;
};

inline ScanPtr make_scan(size_t id, const Pose2d & pose, const std::vector<Point> & points)
{
  auto s = std::make_shared<ndt_2d::Scan>(id);
  s->setPose(pose);
  s->setPoints(points);
  return s;
}
