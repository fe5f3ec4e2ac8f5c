#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <rclcpp/serialization.hpp>
#include <stub/bags.hpp>
namespace rosbag2_cpp
{
class Writer
{
public:
  void open(const std::string & uri)
  {
    stub::bag_fault(stub::bag_faults().write_in, "storage: cannot open");
    if (stub::bags().count(uri)) throw std::runtime_error("Bag directory already exists: " + uri);
    stub::bags()[uri];
    uri_ = uri;
    open_ = true;
  }
  void close() { open_ = false; }
  void write(std::shared_ptr<rclcpp::SerializedMessage> m, const std::string & topic,
             const std::string & type, const rclcpp::Time & t)
  {
    stub::bag_fault(stub::bag_faults().write_in, "storage: disk full");
    if (!open_) throw std::runtime_error("Bag is not open");
    stub::bags().at(uri_).push_back({topic, type, t.nanoseconds(), m->bytes});
  }
private:
  std::string uri_;
  bool open_ = false;
};
}
