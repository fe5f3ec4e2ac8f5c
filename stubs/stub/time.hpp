// Virtual time shared by the ROS stand-ins. Nothing here reads the wall clock.
#pragma once
#include <chrono>
#include <cstdint>
namespace stub
{
int64_t now_ns();
void set_now_ns(int64_t t);
// Another thread may run here
void interruption_point();
}  // namespace stub
namespace builtin_interfaces { namespace msg {
struct Time
{
  int32_t sec = 0;
  uint32_t nanosec = 0;
};
struct Duration
{
  int32_t sec = 0;
  uint32_t nanosec = 0;
};
} }
