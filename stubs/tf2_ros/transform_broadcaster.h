#pragma once
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  template <typename N> explicit TransformBroadcaster(N &&) {}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t) 
  {
    stub::tf_sent().push_back(t);
    stub::tf_sent_at().push_back(stub::now_ns());
  }
};
}
