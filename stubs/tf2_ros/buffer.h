// Stand-in for tf2_ros: a test supplies the transforms and records those that are broadcast.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/pose_stamped.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <rclcpp/rclcpp.hpp>
#include <tf2/utils.h>
namespace stub
{
// Transform taking coordinates in `source` into `target` at time ns (0: latest). False: unknown.
using TfLookup = std::function<bool(const std::string & target, const std::string & source, int64_t ns,
                                    geometry_msgs::msg::Transform & out)>;
TfLookup & tf_lookup();
std::vector<geometry_msgs::msg::TransformStamped> & tf_sent();
std::vector<int64_t> & tf_sent_at();                // virtual times at which they were
std::vector<int64_t> & tf_timeouts();               // of transform requests
// Does a request with a timeout wait for its transform, as it does in reality? (not by default)
bool & tf_waits();
void tf_wait();                                     // a little time passes
inline geometry_msgs::msg::Pose apply(const geometry_msgs::msg::Transform & t, const geometry_msgs::msg::Pose & p)
{
  tf2::Quaternion q(t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w);
  tf2::Quaternion v(p.position.x, p.position.y, p.position.z, 0.0);
  tf2::Quaternion r = q * v * q.inverse();
  geometry_msgs::msg::Pose out;
  out.position.x = r.x() + t.translation.x;
  out.position.y = r.y() + t.translation.y;
  out.position.z = r.z() + t.translation.z;
  out.orientation = tf2::toMsg(q * tf2::Quaternion(p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w));
  return out;
}
}
namespace tf2_ros
{
class Buffer
{
public:
  explicit Buffer(rclcpp::Clock::SharedPtr) {}
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t) const
  {
    return lookup(target, source, t.time_since_epoch().count());
  }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t, const tf2::Duration timeout) const
  {
    return lookup(target, source, t.time_since_epoch().count(), timeout.count());
  }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t,
    const rclcpp::Duration & timeout = rclcpp::Duration()) const
  {
    return lookup(target, source, t.nanoseconds(), timeout.nanoseconds());
  }
  geometry_msgs::msg::PoseStamped & transform(
    const geometry_msgs::msg::PoseStamped & in, geometry_msgs::msg::PoseStamped & out,
    const std::string & target, tf2::Duration timeout = tf2::Duration(0)) const
  {
    stub::tf_timeouts().push_back(timeout.count());
    rclcpp::Time stamp(in.header.stamp);
    auto t = lookup(target, in.header.frame_id, stamp.nanoseconds(), timeout.count());
    geometry_msgs::msg::PoseStamped result;
    result.pose = stub::apply(t.transform, in.pose);
    result.header.stamp = in.header.stamp;
    result.header.frame_id = target;
    out = result;
    return out;
  }
  geometry_msgs::msg::PoseStamped transform(
    const geometry_msgs::msg::PoseStamped & in, const std::string & target,
    tf2::Duration d = tf2::Duration(0)) const
  {
    geometry_msgs::msg::PoseStamped out;
    transform(in, out, target, d);
    return out;
  }
  bool canTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t, const tf2::Duration timeout, std::string * error = nullptr) const
  {
    return can(target, source, t.time_since_epoch().count(), timeout.count(), error);
  }
  bool canTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t,
    const rclcpp::Duration & timeout = rclcpp::Duration(), std::string * error = nullptr) const
  {
    return can(target, source, t.nanoseconds(), timeout.nanoseconds(), error);
  }
private:
  static bool can(const std::string & target, const std::string & source, int64_t ns, int64_t timeout, std::string * error)
  {
    try
    {
      lookup(target, source, ns, timeout);
      return true;
    }
    catch (const tf2::LookupException & e)
    {
      if (error) *error = e.what();
      return false;
    }
  }
  static geometry_msgs::msg::TransformStamped lookup(const std::string & target, const std::string & source, int64_t ns, int64_t timeout = 0)
  {
    geometry_msgs::msg::TransformStamped t;
    t.header.frame_id = target;
    t.child_frame_id = source;
    t.header.stamp = rclcpp::Time(ns);
    if (stub::tf_waits())
    {
      int64_t end = stub::now_ns() + timeout;
      while (stub::tf_lookup() && !stub::tf_lookup()(target, source, ns, t.transform) && stub::now_ns() < end) stub::tf_wait();
    }
    if (!stub::tf_lookup() || !stub::tf_lookup()(target, source, ns, t.transform))
    {
      throw tf2::LookupException("no transform from " + source + " to " + target);
    }
    return t;
  }
};
}
