// Stand-in for tf2: quaternions, yaw, exceptions and time points.
#pragma once
#include <chrono>
#include <cmath>
#include <stdexcept>
#include <string>
#include <geometry_msgs/msg/quaternion.hpp>
namespace tf2
{
using Duration = std::chrono::nanoseconds;
using TimePoint = std::chrono::time_point<std::chrono::system_clock, Duration>;
static const TimePoint TimePointZero = TimePoint(Duration(0));
inline Duration durationFromSec(double s) { return Duration(static_cast<int64_t>(s * 1e9)); }
inline double durationToSec(const Duration & d) { return d.count() * 1e-9; }
inline TimePoint timeFromSec(double s) { return TimePoint(durationFromSec(s)); }

class TransformException : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class LookupException : public TransformException { public: using TransformException::TransformException; };
class ConnectivityException : public TransformException { public: using TransformException::TransformException; };
class ExtrapolationException : public TransformException { public: using TransformException::TransformException; };
class InvalidArgumentException : public TransformException { public: using TransformException::TransformException; };
class TimeoutException : public TransformException { public: using TransformException::TransformException; };

class Quaternion
{
public:
  Quaternion() = default;
  Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
  void setRPY(double r, double p, double y)
  {
    double hr = r / 2, hp = p / 2, hy = y / 2;
    double cr = cos(hr), sr = sin(hr), cp = cos(hp), sp = sin(hp), cy = cos(hy), sy = sin(hy);
    x_ = sr * cp * cy - cr * sp * sy;
    y_ = cr * sp * cy + sr * cp * sy;
    z_ = cr * cp * sy - sr * sp * cy;
    w_ = cr * cp * cy + sr * sp * sy;
  }
  double x() const { return x_; }
  double y() const { return y_; }
  double z() const { return z_; }
  double w() const { return w_; }
  double getX() const { return x_; }
  double getY() const { return y_; }
  double getZ() const { return z_; }
  double getW() const { return w_; }
  Quaternion inverse() const { return Quaternion(-x_, -y_, -z_, w_); }
  Quaternion operator*(const Quaternion & b) const
  {
    return Quaternion(w_ * b.x_ + x_ * b.w_ + y_ * b.z_ - z_ * b.y_,
                      w_ * b.y_ - x_ * b.z_ + y_ * b.w_ + z_ * b.x_,
                      w_ * b.z_ + x_ * b.y_ - y_ * b.x_ + z_ * b.w_,
                      w_ * b.w_ - x_ * b.x_ - y_ * b.y_ - z_ * b.z_);
  }
private:
  double x_ = 0, y_ = 0, z_ = 0, w_ = 1;
};

inline void fromMsg(const geometry_msgs::msg::Quaternion & m, Quaternion & q)
{
  q = Quaternion(m.x, m.y, m.z, m.w);
}
inline geometry_msgs::msg::Quaternion toMsg(const Quaternion & q)
{
  geometry_msgs::msg::Quaternion m;
  m.x = q.x();
  m.y = q.y();
  m.z = q.z();
  m.w = q.w();
  return m;
}

// As tf2::impl::getYaw
inline double getYaw(const Quaternion & q)
{
  double sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z(), sqw = q.w() * q.w();
  double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999) return -2 * atan2(q.y(), q.x());
  if (sarg >= 0.99999) return 2 * atan2(q.y(), q.x());
  return atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
}
inline double getYaw(const geometry_msgs::msg::Quaternion & m)
{
  return getYaw(Quaternion(m.x, m.y, m.z, m.w));
}
}  // namespace tf2
