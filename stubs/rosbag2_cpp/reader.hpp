#pragma once
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <string>
#include <rosbag2_storage/serialized_bag_message.hpp>
#include <stub/bags.hpp>
namespace rosbag2_cpp
{
class Reader
{
public:
  void open(const std::string & uri)
  {
    stub::bag_fault(stub::bag_faults().read_in, "storage: cannot open");
    auto it = stub::bags().find(uri);
    if (it == stub::bags().end()) throw std::runtime_error("No storage could be initialized: " + uri);
    bag_ = it->second;
    std::stable_sort(bag_.begin(), bag_.end(),
                     [](const stub::BagMessage & a, const stub::BagMessage & b) {return a.time < b.time;});
    at_ = 0;
  }
  void close() {}
  bool has_next() { return at_ < bag_.size(); }
  rosbag2_storage::SerializedBagMessageSharedPtr read_next()
  {
    stub::bag_fault(stub::bag_faults().read_in, "storage: read error");
    if (!has_next()) throw std::runtime_error("Bag is at end");
    auto m = std::make_shared<rosbag2_storage::SerializedBagMessage>();
    m->serialized_data = std::make_shared<stub::Bytes>(bag_[at_].data);
    m->topic_name = bag_[at_].topic;
    m->time_stamp = bag_[at_].time;
    ++at_;
    return m;
  }
private:
  stub::Bag bag_;
  size_t at_ = 0;
};
}
